//@prelude
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
type Oid = u128;
trait Id: Eq + Hash + Clone + std::fmt::Debug {}
impl Id for u128 {}
trait Identifier<T> { fn id(&self) -> &T; fn name(&self) -> &str; }
#[derive(Debug)]
enum AuthError { PrivilegeNotFound { db: String, privilege: DatabasePrivilege, role: String } }
type AuthResult<T> = Result<T, AuthError>;
trait PrivilegeChecker { fn check_privilege(&self, other: &Self) -> bool; }
//@extract common/models/src/auth/privilege.rs enum DatabasePrivilege
@derive Debug, Clone, PartialEq, Eq, Hash
@end
//@extract common/models/src/auth/privilege.rs enum TenantObjectPrivilege
@derive Debug, Clone, PartialEq, Eq, Hash
@end
//@extract common/models/src/auth/privilege.rs enum GlobalPrivilege
@derive Debug, Clone, PartialEq, Eq, Hash
@end
//@extract common/models/src/auth/privilege.rs enum Privilege
@derive Debug, Clone, PartialEq, Eq, Hash
@end
//@extract common/models/src/auth/privilege.rs impl PrivilegeChecker for DatabasePrivilege
@end
//@extract common/models/src/auth/privilege.rs impl PrivilegeChecker for TenantObjectPrivilege
@end
//@extract common/models/src/auth/privilege.rs impl PrivilegeChecker for GlobalPrivilege
@end
//@extract common/models/src/auth/privilege.rs impl PrivilegeChecker for Privilege
@end
//@extract common/models/src/auth/role.rs enum SystemTenantRole
@derive Debug, Clone, PartialEq, Eq, Hash
@end
//@extract common/models/src/auth/role.rs SystemTenantRole::to_privileges
@end
struct Lock<T>(T);
impl<T> Lock<T> { fn read(&self) -> &T { &self.0 } }
type CustomTenantRoleRef<T> = std::sync::Arc<Lock<CustomTenantRole<T>>>;
//@extract common/models/src/auth/role.rs enum TenantRole
@derive Clone
@end
//@extract common/models/src/auth/role.rs enum UserRole
@end
//@extract common/models/src/auth/role.rs struct CustomTenantRole
@derive Clone, Debug
@end
//@extract common/models/src/auth/role.rs TenantRole::to_privileges
@end
//@extract common/models/src/auth/role.rs UserRole::to_privileges
@end
//@extract common/models/src/auth/role.rs CustomTenantRole::to_privileges
@end
//@extract common/models/src/auth/role.rs CustomTenantRole::grant_privilege
@end
//@extract common/models/src/auth/role.rs CustomTenantRole::revoke_privilege
@end
struct UserDesc { id: Oid }
impl UserDesc { fn id(&self) -> &Oid { &self.id } }
struct TenantRoleIdentifier;
//@extract common/models/src/auth/user.rs struct User
@end
//@extract common/models/src/auth/user.rs User::new
@end
//@extract common/models/src/auth/user.rs User::check_privilege
@end
//@extract common/models/src/auth/user.rs User::can_access_system
@end
//@extract common/models/src/auth/user.rs User::can_access_role
@end
//@extract common/models/src/auth/user.rs User::can_read_database
@end
macro_rules! debug { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
impl<T: std::fmt::Debug> std::fmt::Display for Privilege<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
#[derive(Debug)]
enum QueryError { InsufficientPrivileges { privilege: String } }
type QueryResult<T> = Result<T, QueryError>;
//@extract query_server/query/src/sql/planner.rs check_privilege
@end
struct DatabaseSet(HashSet<String>);
impl DatabaseSet { fn dbs(&self) -> Vec<&String> { self.0.iter().collect() } }
//@extract query_server/query/src/sql/planner.rs databases_privileges
@end
//@helpers
use DatabasePrivilege as D; use GlobalPrivilege as G; use Privilege as P; use TenantObjectPrivilege as O;
// a right is one thing that can be done, in one place; "all" requests need every place, those not made yet (the 9s) included
fn rights(p: &P<Oid>) -> HashSet<(u8, u128, u128)> {
    let us = |o: &Option<Oid>| match o { Some(x) => vec![*x], None => vec![1, 2, 9] };
    let mut s = HashSet::new();
    match p {
        P::Global(G::System) => { s.insert((0, 0, 0)); }
        P::Global(G::User(u)) => for u in us(u) { s.insert((1, u, 0)); },
        P::Global(G::Tenant(t)) => for t in us(t) { s.insert((2, t, 0)); },
        P::TenantObject(o, t) => for t in us(t) { match o {
            O::System => { s.insert((3, t, 0)); } O::MemberFull => { s.insert((4, t, 0)); } O::RoleFull => { s.insert((5, t, 0)); }
            O::Database(l, d) => for d in match d { Some(x) if x == "a" => vec![1], Some(_) => vec![2], None => vec![1, 2, 9] } { s.insert((6, t, d)); if *l != D::Read { s.insert((7, t, d)); } if *l == D::Full { s.insert((8, t, d)); } }
        } }
    }
    s
}
fn all() -> Vec<P<Oid>> {
    let ids = [None, Some(1), Some(2)];
    let mut v = vec![P::Global(G::System)];
    for i in ids { v.push(P::Global(G::User(i))); v.push(P::Global(G::Tenant(i))); for o in [O::System, O::MemberFull, O::RoleFull] { v.push(P::TenantObject(o, i)); }
        for d in [None, Some("a".to_string()), Some("b".to_string())] { for l in [D::Read, D::Write, D::Full] { v.push(P::TenantObject(O::Database(l, d.clone()), i)); } } }
    v
}
fn union<'a>(s: impl Iterator<Item = &'a P<Oid>>) -> Vec<HashSet<(u8, u128, u128)>> { s.map(rights).collect() }
fn may(have: &[HashSet<(u8, u128, u128)>], q: &P<Oid>) -> bool { let r = rights(q); have.iter().any(|h| r.is_subset(h)) }
fn main() {
    let mut h = H::new();
    let mut r = h.rng(20);
    let qs = all();
    for a in &qs { for b in &qs {
        h.case("covers", hash(&(a, b)), &|| format!("{a:?} asked for {b:?}"), &mut || { let w = rights(b).is_subset(&rights(a)); if a.check_privilege(b) != w { return Err(format!("granted: {}, must be {w}", !w)); } Ok(()) });
    } }
    h.exhaustive("all pairs of privileges over two tenants, users and databases");
    let mut roles: Vec<CustomTenantRole<Oid>> = vec![];
    let lv = [None, Some(D::Read), Some(D::Write), Some(D::Full)];
    for s in [None, Some(SystemTenantRole::Owner), Some(SystemTenantRole::Member)] { for a in &lv { for b in &lv {
        roles.push(CustomTenantRole { id: 7, name: "r".into(), system_role: s.clone(), additional_privileges: [("a", a), ("b", b)].into_iter().filter_map(|(n, l)| l.clone().map(|l| (n.to_string(), l))).collect() });
    } } }
    let sysr = |s: &SystemTenantRole, t: Oid| -> Vec<P<Oid>> { match s { SystemTenantRole::Owner => vec![P::Global(G::Tenant(Some(t))), P::TenantObject(O::System, Some(t)), P::TenantObject(O::MemberFull, Some(t)), P::TenantObject(O::RoleFull, Some(t)), P::TenantObject(O::Database(D::Full, None), Some(t))], SystemTenantRole::Member => vec![P::TenantObject(O::Database(D::Read, None), Some(t))] } };
    let cus = |c: &CustomTenantRole<Oid>, t: Oid| -> Vec<P<Oid>> { let mut v: Vec<P<Oid>> = c.system_role.iter().flat_map(|s| sysr(s, t)).collect(); for (d, l) in &c.additional_privileges { v.push(P::TenantObject(O::Database(l.clone(), Some(d.clone())), Some(t))); } v };
    for c in &roles { for t in [1u128, 2] { for u in [1u128, 2] {
        h.case("role", hash(&(format!("{c:?}"), t, u)), &|| format!("user {u} with {c:?} in tenant {t}"), &mut || {
            let want = union(cus(c, t).iter().chain([P::Global(G::User(Some(u)))].iter()));
            let r = TenantRole::Custom(std::sync::Arc::new(Lock(c.clone())));
            let user = User::new(UserDesc { id: u }, r.to_privileges(&t), None);
            for q in &qs { if user.check_privilege(q) != may(&want, q) { return Err(format!("{q:?} granted: {}", user.check_privilege(q))); } if check_privilege(&user, vec![q.clone()]).is_ok() != may(&want, q) { return Err(format!("a plan asking for {q:?} is not handled as the privilege is")); } }
            for t2 in [1u128, 2] { 
                if user.can_access_system(t2) != may(&want, &P::TenantObject(O::System, Some(t2))) || user.can_access_role(t2) != may(&want, &P::TenantObject(O::RoleFull, Some(t2))) { return Err(format!("access to the system or role tables of tenant {t2}")); }
                for d in ["a", "b"] { if user.can_read_database(t2, d) != may(&want, &P::TenantObject(O::Database(D::Read, Some(d.into())), Some(t2))) { return Err(format!("reading database {d} of tenant {t2}")); } }
                for l in [D::Read, D::Write, D::Full] { let ps = databases_privileges(l.clone(), t2, DatabaseSet(["a".to_string(), "b".to_string()].into())); let w = ["a", "b"].iter().all(|d| may(&want, &P::TenantObject(O::Database(l.clone(), Some(d.to_string())), Some(t2)))); if check_privilege(&user, ps.clone()).is_ok() != w { return Err(format!("a statement on databases a and b asking for {ps:?}: allowed {}", !w)); } }
            }
            Ok(())
        });
    } } }
    h.case("dba", 1, &|| "the administrator".into(), &mut || { let user = User::new(UserDesc { id: 1 }, UserRole::<Oid>::Dba.to_privileges(), None); for q in &qs { if !user.check_privilege(q) { return Err(format!("{q:?} denied")); } } Ok(()) });
    for n in 0..h.scale(2_000, 50_000) {
        let a = r.pick(&roles); let b = r.pick(&roles); let s = r.pick(&[SystemTenantRole::Owner, SystemTenantRole::Member]);
        h.case("tenants", hash(&(n, format!("{a:?}{b:?}"))), &|| format!("{a:?} in tenant 1 and {b:?} in tenant 2, or {s:?} in 2"), &mut || {
            let custom = n % 2 == 0;
            let m: HashMap<Oid, TenantRole<Oid>> = [(1, TenantRole::Custom(std::sync::Arc::new(Lock(a.clone())))), (2, if custom { TenantRole::Custom(std::sync::Arc::new(Lock(b.clone()))) } else { TenantRole::System(s.clone()) })].into();
            let ps = UserRole::Public(m).to_privileges(); let want = union(cus(&a, 1).iter().chain(if custom { cus(&b, 2) } else { sysr(&s, 2) }.iter()));
            for q in &qs { if ps.iter().any(|p| p.check_privilege(q)) != may(&want, q) { return Err(format!("{q:?}")); } }
            Ok(())
        });
        let ops: Vec<(bool, bool, u64)> = (0..1 + r.below(8)).map(|_| (r.chance(1, 2), r.chance(1, 2), r.below(3))).collect();
        h.case("grant", hash(&(n, &ops)), &|| format!("from {a:?}, (grant, on a, level) {ops:?}"), &mut || {
            let mut c = a.clone(); let mut m = a.additional_privileges.clone();
            for (g, on_a, l) in &ops {
                let (d, l) = (if *on_a { "a" } else { "b" }, [D::Read, D::Write, D::Full][*l as usize].clone());
                if *g { c.grant_privilege(d.into(), l.clone()).map_err(|e| format!("{e:?}"))?; m.insert(d.into(), l); }
                else { let had = m.get(d) == Some(&l); let res = c.revoke_privilege(d, &l); if had { m.remove(d); } if res.is_ok() != had || (had && !res.unwrap()) { return Err(format!("revoking {l:?} on {d}")); } }
                if c.additional_privileges != m { return Err(format!("privileges {:?}, must be {m:?}", c.additional_privileges)); }
            }
            Ok(())
        });
    }
    h.done();
}
