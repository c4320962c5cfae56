// stand-ins for the arrow types the codecs build, and for the integer-encoding crate's LEB128 varints
pub mod arr {
    use std::marker::PhantomData;
    use std::sync::Arc;
    #[derive(Clone, Debug)] pub struct NullBuffer { pub bits: Vec<bool> }
    impl NullBuffer {
        pub fn len(&self) -> usize { self.bits.len() }
        pub fn is_empty(&self) -> bool { self.bits.is_empty() }
        pub fn is_valid(&self, i: usize) -> bool { self.bits[i] }
        pub fn is_null(&self, i: usize) -> bool { !self.bits[i] }
        pub fn null_count(&self) -> usize { self.bits.iter().filter(|b| !**b).count() }
        pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.bits.iter().copied() }
        pub fn valid_indices(&self) -> impl Iterator<Item = usize> + '_ { self.bits.iter().enumerate().filter(|x| *x.1).map(|x| x.0) }
    }
    pub trait Array { fn to_data(&self) -> Data; }
    pub type ArrayRef = Arc<dyn Array>;
    #[derive(Clone)] pub struct Data { pub v: Vec<Option<u64>>, pub ty: DataType }
    #[derive(Clone, Copy, PartialEq, Debug)] pub enum DataType { Int64, UInt64, Float64, Boolean, Utf8 }
    pub use DataType::*;
    pub struct DataBuilder(Data);
    impl Data { pub fn into_builder(self) -> DataBuilder { DataBuilder(self) } }
    impl DataBuilder {
        pub fn data_type(mut self, t: DataType) -> DataBuilder { self.0.ty = t; self }
        pub unsafe fn build_unchecked(self) -> Data { self.0 }
        pub fn build(self) -> Result<Data, String> { Ok(self.0) }
    }
    pub trait Ty { type N: Copy; const T: DataType; fn bits(n: Self::N) -> u64; }
    pub struct Int64Type; pub struct UInt64Type; pub struct Float64Type; pub struct BoolType;
    impl Ty for Int64Type { type N = i64; const T: DataType = Int64; fn bits(n: i64) -> u64 { n as u64 } }
    impl Ty for UInt64Type { type N = u64; const T: DataType = UInt64; fn bits(n: u64) -> u64 { n } }
    impl Ty for Float64Type { type N = f64; const T: DataType = Float64; fn bits(n: f64) -> u64 { n.to_bits() } }
    impl Ty for BoolType { type N = bool; const T: DataType = Boolean; fn bits(n: bool) -> u64 { n as u64 } }
    pub struct PrimitiveArray<T>(Vec<Option<u64>>, PhantomData<T>);
    pub type Int64Array = PrimitiveArray<Int64Type>; pub type UInt64Array = PrimitiveArray<UInt64Type>;
    pub type Float64Array = PrimitiveArray<Float64Type>; pub type BooleanArray = PrimitiveArray<BoolType>;
    impl<T: Ty> From<Vec<Option<T::N>>> for PrimitiveArray<T> { fn from(v: Vec<Option<T::N>>) -> Self { PrimitiveArray(v.into_iter().map(|x| x.map(T::bits)).collect(), PhantomData) } }
    impl From<Vec<bool>> for BooleanArray { fn from(v: Vec<bool>) -> Self { PrimitiveArray(v.into_iter().map(|x| Some(x as u64)).collect(), PhantomData) } }
    impl<T: Ty> From<Data> for PrimitiveArray<T> { fn from(d: Data) -> Self { assert_eq!(d.ty, T::T); PrimitiveArray(d.v, PhantomData) } }
    impl<T: Ty> Array for PrimitiveArray<T> { fn to_data(&self) -> Data { Data { v: self.0.clone(), ty: T::T } } }
    pub struct Builder<T: Ty>(Vec<Option<u64>>, PhantomData<T>);
    pub type Int64Builder = Builder<Int64Type>; pub type UInt64Builder = Builder<UInt64Type>; pub type Float64Builder = Builder<Float64Type>; pub type BooleanBuilder = Builder<BoolType>;
    impl<T: Ty> Builder<T> {
        pub fn new() -> Self { Builder(vec![], PhantomData) }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
        pub fn append_value(&mut self, x: T::N) { self.0.push(Some(T::bits(x))); }
        pub fn append_null(&mut self) { self.0.push(None); }
        pub fn append_option(&mut self, x: Option<T::N>) { self.0.push(x.map(T::bits)); }
        pub fn finish(&mut self) -> PrimitiveArray<T> { PrimitiveArray(std::mem::take(&mut self.0), PhantomData) }
    }
    pub fn text_key(s: &[u8]) -> u64 { s.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3)) ^ ((s.len() as u64) << 40) }
    pub struct StringArray(Vec<Option<u64>>);
    impl From<Vec<Option<String>>> for StringArray { fn from(v: Vec<Option<String>>) -> Self { StringArray(v.into_iter().map(|x| x.map(|x| text_key(x.as_bytes()))).collect()) } }
    impl Array for StringArray { fn to_data(&self) -> Data { Data { v: self.0.clone(), ty: Utf8 } } }
    pub struct StringBuilder(Vec<Option<u64>>);
    impl StringBuilder {
        pub fn new() -> Self { StringBuilder(vec![]) }
        pub fn with_capacity(_: usize, _: usize) -> Self { Self::new() }
        pub fn append_value(&mut self, x: impl AsRef<str>) { self.0.push(Some(text_key(x.as_ref().as_bytes()))); }
        pub fn append_null(&mut self) { self.0.push(None); }
        pub fn append_option(&mut self, x: Option<impl AsRef<str>>) { self.0.push(x.map(|x| text_key(x.as_ref().as_bytes()))); }
        pub fn finish(&mut self) -> StringArray { StringArray(std::mem::take(&mut self.0)) }
    }
    pub trait VarInt: Sized + Copy { fn encode_var(self, d: &mut [u8]) -> usize; fn decode_var(s: &[u8]) -> Option<(Self, usize)>; fn required_space(self) -> usize; }
    macro_rules! vi { ($($t:ty),*) => { $(impl VarInt for $t {
        fn required_space(self) -> usize { let mut n = 1; let mut x = self as u64 >> 7; while x > 0 { n += 1; x >>= 7; } n }
        fn encode_var(self, d: &mut [u8]) -> usize {
            assert!(d.len() >= self.required_space());
            let mut n = self as u64; let mut i = 0;
            while n >= 0x80 { d[i] = 0x80 | n as u8; i += 1; n >>= 7; }
            d[i] = n as u8; i + 1
        }
        fn decode_var(s: &[u8]) -> Option<(Self, usize)> {
            let (mut r, mut sh, mut ok) = (0u64, 0u32, false);
            for b in s { r |= ((b & 0x7f) as u64) << sh; sh += 7; if b & 0x80 == 0 { ok = true; break; } if sh > 63 { return None; } }
            if ok { Some((r as $t, sh as usize / 7)) } else { None }
        }
    })* } }
    vi!(u64, u32, usize);
    pub type CodecError = Box<dyn std::error::Error + Send + Sync>;
}
pub mod byte_utils {
    pub fn decode_be_i64(key: &[u8]) -> i64 { i64::from_be_bytes(key[..8].try_into().unwrap()) }
    pub fn decode_be_u64(key: &[u8]) -> u64 { u64::from_be_bytes(key[..8].try_into().unwrap()) }
    pub fn decode_be_f64(key: &[u8]) -> f64 { f64::from_be_bytes(key[..8].try_into().unwrap()) }
}
// what a column of `vals` in the rows marked in `bits` must come back as
pub fn want(bits: &[bool], vals: &[u64]) -> Vec<Option<u64>> { let mut i = vals.iter(); bits.iter().map(|b| if *b { Some(*i.next().unwrap()) } else { None }).collect() }
pub fn rows(r: &mut Rng, n: usize) -> Vec<bool> {
    // a mask with n valid rows
    let (mut b, mut left, how) = (vec![], n, r.below(5));
    let p = if how == 0 { 0 } else { 1 + r.below(4) };
    if how == 1 { b.push(false); }
    while left > 0 { if p > 0 && r.chance(p, 6) { b.push(false); } else { b.push(true); left -= 1; } }
    if how >= 3 { for _ in 0..r.below(3) { b.push(false); } }
    if n == 0 { b = vec![false; r.below(5) as usize]; }
    b
}
pub fn cmp(enc: Result<(), arr::CodecError>, dec: &mut dyn FnMut() -> Result<arr::ArrayRef, arr::CodecError>, ty: arr::DataType, bits: &[bool], vals: &[u64]) -> Result<(), String> {
    if let Err(e) = enc { return Err(format!("encode failed: {e}")); }
    match dec() {
        Err(e) => Err(format!("decode failed: {e}")),
        Ok(a) => { let d = a.to_data(); let w = want(bits, vals);
            if d.ty != ty { return Err(format!("column of type {:?}, must be {:?}", d.ty, ty)); }
            if d.v == w { Ok(()) } else { let k = (0..w.len()).find(|k| d.v.get(*k) != Some(&w[*k])); Err(format!("{} rows, must be {}; row {:?} is {:?}, must be {:?}", d.v.len(), w.len(), k, k.and_then(|k| d.v.get(k)), k.map(|k| w[k]))) } }
    }
}
