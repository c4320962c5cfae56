use vstd::prelude::*;
verus! {
type Oid = u128;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct Name { x: u64 }
// ---- the enums, copied
//@extract common/models/src/auth/privilege.rs enum DatabasePrivilege
@derive Clone, Copy, PartialEq, Eq, Structural
@end
//@extract common/models/src/auth/privilege.rs enum TenantObjectPrivilege
@derive Clone, PartialEq, Eq, Structural
@subst /String/ => Name
@end
//@extract common/models/src/auth/privilege.rs enum GlobalPrivilege
@derive Clone, PartialEq, Eq, Structural
@subst /<T>|\(T\)/ => 
@subst /Option\b/ => Option<Oid>
@end
//@extract common/models/src/auth/privilege.rs enum Privilege
@derive Clone, PartialEq, Eq, Structural
@subst /enum Privilege<T>/ => enum Privilege
@subst /GlobalPrivilege<T>/ => GlobalPrivilege
@subst /Option<T>/ => Option<Oid>
@end
type P = Privilege;

// ---- what a privilege covers
// no name stands for all of them
spec fn scope<A>(have: Option<A>, need: Option<A>) -> bool { have is None || have == need }
spec fn level(p: DatabasePrivilege) -> int { match p { DatabasePrivilege::Read => 0, DatabasePrivilege::Write => 1, DatabasePrivilege::Full => 2 } }
spec fn covers_obj(a: TenantObjectPrivilege, b: TenantObjectPrivilege) -> bool {
    match (a, b) {
        (TenantObjectPrivilege::Database(x, d), TenantObjectPrivilege::Database(y, e)) => scope(d, e) && level(x) >= level(y),
        (TenantObjectPrivilege::System, TenantObjectPrivilege::System) => true,
        (TenantObjectPrivilege::MemberFull, TenantObjectPrivilege::MemberFull) => true,
        (TenantObjectPrivilege::RoleFull, TenantObjectPrivilege::RoleFull) => true,
        _ => false,
    }
}
spec fn covers_glob(a: GlobalPrivilege, b: GlobalPrivilege) -> bool {
    match (a, b) {
        (GlobalPrivilege::System, GlobalPrivilege::System) => true,
        (GlobalPrivilege::User(x), GlobalPrivilege::User(y)) => scope(x, y),
        (GlobalPrivilege::Tenant(x), GlobalPrivilege::Tenant(y)) => scope(x, y),
        _ => false,
    }
}
spec fn covers(a: P, b: P) -> bool {
    match (a, b) {
        (Privilege::Global(x), Privilege::Global(y)) => covers_glob(x, y),
        (Privilege::TenantObject(x, t), Privilege::TenantObject(y, u)) => scope(t, u) && covers_obj(x, y),
        _ => false,
    }
}
spec fn tenant(p: P) -> Option<Option<Oid>> { match p { Privilege::TenantObject(_, t) => Some(t), Privilege::Global(GlobalPrivilege::Tenant(t)) => Some(t), _ => None } }
spec fn database(p: P) -> Option<Option<Name>> { match p { Privilege::TenantObject(TenantObjectPrivilege::Database(_, d), _) => Some(d), _ => None } }
proof fn lemma_order(a: P, b: P, c: P)
    ensures covers(a, a), covers(a, b) && covers(b, c) ==> covers(a, c),
      // nothing of one tenant or database is covered by a privilege of another one
      covers(a, b) && tenant(a) is Some && tenant(a)->0 is Some ==> tenant(b) == tenant(a),
      covers(a, b) && database(a) is Some && database(a)->0 is Some ==> database(b) == database(a)
{}

// ---- the checks
//@extract common/models/src/auth/privilege.rs PrivilegeChecker for DatabasePrivilege::check_privilege
@header impl DatabasePrivilege
@ret r
@spec
    ensures r == (level(*self) >= level(*other))
@end
//@extract common/models/src/auth/privilege.rs PrivilegeChecker for TenantObjectPrivilege::check_privilege
@header impl TenantObjectPrivilege
@ret r
@spec
    ensures r == covers_obj(*self, *other)
@end
//@extract common/models/src/auth/privilege.rs PrivilegeChecker for GlobalPrivilege::check_privilege
@header impl GlobalPrivilege
@ret r
@spec
    ensures r == covers_glob(*self, *other)
@end
//@extract common/models/src/auth/privilege.rs PrivilegeChecker for Privilege::check_privilege
@header impl Privilege
@ret r
@spec
    ensures r == covers(*self, *other)
@end

// ---- sets of privileges (HashSet)
#[verifier::external_body]
struct PSet { x: u64 }
uninterp spec fn pv(s: PSet) -> Set<P>;
spec fn grants(s: Set<P>, q: P) -> bool { exists|p: P| s.contains(p) && #[trigger] covers(p, q) }
#[verifier::external_body]
fn collect(v: Vec<P>) -> (r: PSet) ensures pv(r) == v@.to_set() { unimplemented!() }
spec fn upto(v: Seq<P>, n: nat, q: P) -> bool decreases n { n > 0 && (covers(v[n - 1], q) || upto(v, (n - 1) as nat, q)) }
proof fn lemma_upto(v: Seq<P>, n: nat, q: P) requires n <= v.len() ensures upto(v, n, q) == exists|i: int| 0 <= i < n && #[trigger] covers(v[i], q) decreases n
{ if n > 0 { lemma_upto(v, (n - 1) as nat, q); if exists|i: int| 0 <= i < n && #[trigger] covers(v[i], q) { let i = choose|i: int| 0 <= i < n && #[trigger] covers(v[i], q); if i < n - 1 { assert(covers(v[i], q)); } } } }
fn pset(v: Vec<P>) -> (r: PSet) ensures forall|q: P| #[trigger] grants(pv(r), q) == upto(v@, v@.len(), q)
{
    let ghost s = v@;
    let r = collect(v);
    proof { assert forall|q: P| #[trigger] grants(pv(r), q) == upto(s, s.len(), q) by { lemma_upto(s, s.len(), q);
        if grants(pv(r), q) { let p = choose|p: P| pv(r).contains(p) && #[trigger] covers(p, q); let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(covers(s[i], q)); }
        if exists|i: int| 0 <= i < s.len() && #[trigger] covers(s[i], q) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] covers(s[i], q); assert(pv(r).contains(s[i])); } } }
    r
}
impl PSet {
    #[verifier::external_body]
    fn new() -> (r: PSet) ensures pv(r) == Set::<P>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, p: P) -> (r: bool) ensures pv(*final(self)) == pv(*old(self)).insert(p) { unimplemented!() }
    #[verifier::external_body]
    fn union(&self, o: &PSet) -> (r: PSet) ensures pv(r) == pv(*self).union(pv(*o)) { unimplemented!() }
    #[verifier::external_body]
    fn any<F: Fn(&P) -> bool>(&self, f: F) -> (r: bool)
        requires forall|p: P| pv(*self).contains(p) ==> f.requires((&p,))
        ensures r ==> exists|p: P| pv(*self).contains(p) && f.ensures((&p,), true), !r ==> forall|p: P| pv(*self).contains(p) ==> f.ensures((&p,), false)
    { unimplemented!() }
}
struct UserDesc { id: Oid }
impl UserDesc { fn id(&self) -> (r: &Oid) ensures *r == self.id { &self.id } }
struct RoleId { x: u8 }
struct User { desc: UserDesc, privileges: PSet, role: Option<RoleId> }
//@extract common/models/src/auth/user.rs User::new
@ret r
@subst /HashSet<Privilege<Oid>>/ => PSet
@subst /TenantRoleIdentifier/ => RoleId
@spec
    // besides what was given to them, users may change their own settings, and nobody else's
    ensures pv(r.privileges) == pv(privileges).insert(Privilege::Global(GlobalPrivilege::User(Some(desc.id)))), r.desc == desc, r.role == role
@end
//@extract common/models/src/auth/user.rs User::check_privilege
@ret r
@subst /Privilege<Oid>/ => Privilege
@subst /self\.privileges\.iter\(\)\.any\(\|(\w+)\| (.*?)\)\s*\}/ => self.privileges.any(|\1: &P| -> (b: bool) ensures b == covers(*\1, *privilege) { \2 }) }
@spec
    ensures r == grants(pv(self.privileges), *privilege)
@end
//@extract common/models/src/auth/user.rs User::can_access_system
@ret r
@spec
    ensures r == grants(pv(self.privileges), Privilege::TenantObject(TenantObjectPrivilege::System, Some(tenant_id)))
@end
//@extract common/models/src/auth/user.rs User::can_access_role
@ret r
@spec
    ensures r == grants(pv(self.privileges), Privilege::TenantObject(TenantObjectPrivilege::RoleFull, Some(tenant_id)))
@end
impl Name { #[verifier::external_body] fn to_string(&self) -> (r: Name) ensures r == *self { unimplemented!() } }
//@extract common/models/src/auth/user.rs User::can_read_database
@ret r
@subst /&str/ => &Name
@spec
    ensures r == grants(pv(self.privileges), Privilege::TenantObject(TenantObjectPrivilege::Database(DatabasePrivilege::Read, Some(*database_name)), Some(tenant_id)))
@end

// ---- roles
//@extract common/models/src/auth/role.rs enum SystemTenantRole
@derive Clone, Copy
@end
// what a built-in role may do in its tenant
spec fn sys_may(s: SystemTenantRole, t: Oid, q: P) -> bool {
    match s {
        SystemTenantRole::Owner => tenant(q) == Some(Some(t)),
        SystemTenantRole::Member => tenant(q) == Some(Some(t)) && (q matches Privilege::TenantObject(TenantObjectPrivilege::Database(DatabasePrivilege::Read, _), _)),
    }
}
spec fn all_of(s: Set<P>, f: spec_fn(P) -> bool) -> bool { forall|q: P| #[trigger] grants(s, q) == f(q) }
//@extract common/models/src/auth/role.rs SystemTenantRole::to_privileges
@ret r
@subst /to_privileges<T>/ => to_privileges
@subst /where\s*T: Id,/ => 
@subst /&T\b/ => &Oid
@subst /HashSet<Privilege<T>>/ => PSet
@subst /(vec!\[.*?\])\s*\.into_iter\(\)\s*\.collect\(\)/ => pset(\1)
@at start
    proof { reveal_with_fuel(upto, 10); }
@spec
    ensures all_of(pv(r), |q: P| sys_may(*self, *tenant_id, q))
@end
#[verifier::external_body]
struct Roles { x: u64 }
enum UserRole { Dba, Public(Roles) }
impl Roles { #[verifier::external_body] fn to_privileges(&self) -> (r: PSet) { unimplemented!() } }
//@extract common/models/src/auth/role.rs UserRole::to_privileges
@header impl UserRole
@ret r
@subst /HashSet<Privilege<T>>/ => PSet
@subst /(vec!\[.*?\])\s*\.into_iter\(\)\s*\.collect\(\)/ => pset(\1)
@subst /Self::Public\((\w+)\) => roles.*?unwrap_or_default\(\),/ => Self::Public(\1) => \1.to_privileges(),
@at start
    proof { reveal_with_fuel(upto, 10); }
@spec
    // an administrator may do everything
    ensures *self is Dba ==> all_of(pv(r), |q: P| true)
@end
// ---- custom roles
#[verifier::external_body]
struct DbMap { x: u64 }
uninterp spec fn dm(m: DbMap) -> Map<Name, DatabasePrivilege>;
impl DbMap {
    #[verifier::external_body]
    fn insert(&mut self, k: Name, v: DatabasePrivilege) -> (r: Option<DatabasePrivilege>) ensures dm(*final(self)) == dm(*old(self)).insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &Name) -> (r: Option<&DatabasePrivilege>) ensures r is Some == dm(*self).dom().contains(*k), r is Some ==> *r->0 == dm(*self)[*k] { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &Name) -> (r: Option<DatabasePrivilege>) ensures dm(*final(self)) == dm(*old(self)).remove(*k), r is Some == dm(*old(self)).dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn map_set<F: Fn(&Name, &DatabasePrivilege) -> P>(&self, f: F) -> (r: PSet)
        requires forall|k: Name| #[trigger] dm(*self).dom().contains(k) ==> f.requires((&k, &dm(*self)[k]))
        ensures forall|p: P| #[trigger] pv(r).contains(p) ==> exists|k: Name| #[trigger] dm(*self).dom().contains(k) && f.ensures((&k, &dm(*self)[k]), p),
          forall|k: Name| #[trigger] dm(*self).dom().contains(k) ==> exists|p: P| pv(r).contains(p) && f.ensures((&k, &dm(*self)[k]), p)
    { unimplemented!() }
}
#[derive(Debug)]
enum AuthError { PrivilegeNotFound }
type AuthResult<T> = Result<T, AuthError>;
struct CustomTenantRole { id: Oid, name: Name, system_role: Option<SystemTenantRole>, additional_privileges: DbMap }
spec fn db_priv(l: DatabasePrivilege, d: Name, t: Oid) -> P { Privilege::TenantObject(TenantObjectPrivilege::Database(l, Some(d)), Some(t)) }
spec fn own_may(c: CustomTenantRole, t: Oid, q: P) -> bool { exists|d: Name| #[trigger] dm(c.additional_privileges).dom().contains(d) && covers(db_priv(dm(c.additional_privileges)[d], d, t), q) }
spec fn role_may(c: CustomTenantRole, t: Oid, q: P) -> bool { (c.system_role is Some && sys_may(c.system_role->0, t, q)) || own_may(c, t, q) }
proof fn lemma_union(a: Set<P>, b: Set<P>, q: P) ensures grants(a.union(b), q) == (grants(a, q) || grants(b, q))
{
    if grants(a, q) { let p = choose|p: P| a.contains(p) && #[trigger] covers(p, q); assert(a.union(b).contains(p)); }
    if grants(b, q) { let p = choose|p: P| b.contains(p) && #[trigger] covers(p, q); assert(a.union(b).contains(p)); }
    if grants(a.union(b), q) { let p = choose|p: P| a.union(b).contains(p) && #[trigger] covers(p, q); assert(a.contains(p) || b.contains(p)); }
}
// what the members of a set of database grants are
spec fn made(s: Set<P>, c: CustomTenantRole, t: Oid) -> bool {
    &&& forall|p: P| #[trigger] s.contains(p) ==> exists|k: Name| #[trigger] dm(c.additional_privileges).dom().contains(k) && p == db_priv(dm(c.additional_privileges)[k], k, t)
    &&& forall|k: Name| #[trigger] dm(c.additional_privileges).dom().contains(k) ==> s.contains(db_priv(dm(c.additional_privileges)[k], k, t))
}
proof fn lemma_role(a: Set<P>, b: Set<P>, c: CustomTenantRole, t: Oid)
    requires if c.system_role is Some { all_of(a, |q: P| sys_may(c.system_role->0, t, q)) } else { a == Set::<P>::empty() }, made(b, c, t)
    ensures all_of(a.union(b), |q: P| role_may(c, t, q))
{
    assert forall|q: P| #[trigger] grants(a.union(b), q) == role_may(c, t, q) by {
        lemma_union(a, b, q);
        if grants(b, q) { let p = choose|p: P| b.contains(p) && #[trigger] covers(p, q); assert(b.contains(p)); }
        if own_may(c, t, q) { let d = choose|d: Name| #[trigger] dm(c.additional_privileges).dom().contains(d) && covers(db_priv(dm(c.additional_privileges)[d], d, t), q); assert(b.contains(db_priv(dm(c.additional_privileges)[d], d, t))); }
        if c.system_role is Some { assert(grants(a, q) == sys_may(c.system_role->0, t, q)); }
    }
}
//@extract common/models/src/auth/role.rs CustomTenantRole::to_privileges
@header impl CustomTenantRole
@ret r
@subst /HashSet<Privilege<T>>/ => PSet
@subst /HashSet::new/ => PSet::new
@subst /&T\b/ => &Oid
@subst /self\s*\.additional_privileges\s*\.iter\(\)\s*\.map\(\|\((\w+), (\w+)\)\| \{(.*?)\}\)\s*\.collect::<PSet>\(\)/ => self.additional_privileges.map_set(|\1: &Name, \2: &DatabasePrivilege| -> (p: P) ensures p == db_priv(*\2, *\1, *tenant_id) { \3 })
@subst /(\w+)\s*\.union\(&(\w+)\)\s*\.cloned\(\)\s*\.collect\(\)/ => { proof { lemma_role(pv(\1), pv(\2), *self, *tenant_id); } \1.union(&\2) }
@spec
    ensures all_of(pv(r), |q: P| role_may(*self, *tenant_id, q))
@end
//@extract common/models/src/auth/role.rs CustomTenantRole::grant_privilege
@header impl CustomTenantRole
@ret r
@subst /String/ => Name
@spec
    // a grant is effective at once and touches one database; the last grant on a database counts
    ensures r is Ok, dm(final(self).additional_privileges) == dm(old(self).additional_privileges).insert(database_name, privilege), final(self).id == old(self).id, final(self).system_role == old(self).system_role
@end
//@extract common/models/src/auth/role.rs CustomTenantRole::revoke_privilege
@header impl CustomTenantRole
@ret r
@subst /&str/ => &Name
@subst /AuthError::PrivilegeNotFound \{.*?\}/ => AuthError::PrivilegeNotFound
@spec
    // exactly the privilege named is taken away, or nothing is and an error says so
    ensures
      r is Ok <==> dm(old(self).additional_privileges).dom().contains(*database_name) && dm(old(self).additional_privileges)[*database_name] == *privilege,
      r is Ok ==> r->Ok_0 && dm(final(self).additional_privileges) == dm(old(self).additional_privileges).remove(*database_name),
      r is Err ==> *final(self) == *old(self), final(self).id == old(self).id, final(self).system_role == old(self).system_role
@end

// ---- statements: every privilege a plan asks for is needed
#[derive(Debug)]
enum QueryError { InsufficientPrivileges }
type QueryResult<T> = Result<T, QueryError>;
//@extract query_server/query/src/sql/planner.rs check_privilege
@ret r
@log
@subst /let privileges_str = .*?;/ => 
@subst /Privilege<Oid>/ => Privilege
@subst /QueryError::InsufficientPrivileges \{\s*\w+: format!\(.*?\),?\s*\}/ => QueryError::InsufficientPrivileges
@iter 0 it
@loop 0
    invariant it.seq().len() == privileges@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == privileges@[k], forall|k: int| 0 <= k < it.index@ ==> grants(pv(user.privileges), #[trigger] privileges@[k])
@spec
    ensures r is Ok ==> forall|k: int| 0 <= k < privileges@.len() ==> grants(pv(user.privileges), #[trigger] privileges@[k]), r is Err ==> exists|k: int| 0 <= k < privileges@.len() && !grants(pv(user.privileges), #[trigger] privileges@[k])
@end
}
