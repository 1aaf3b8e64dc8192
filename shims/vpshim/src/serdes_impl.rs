use std::collections::HashMap;
use std::io::{Read, Write};

#[derive(Debug)]
pub enum SerdeError {
    IOError(std::io::Error),
    DeserializeError,
}
impl std::fmt::Display for SerdeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for SerdeError {}
impl From<std::io::Error> for SerdeError {
    fn from(e: std::io::Error) -> Self {
        SerdeError::IOError(e)
    }
}
pub type SerdeResult<T> = Result<T, SerdeError>;

pub trait ExpSerde: Sized {
    fn serialize_into<W: Write>(&self, writer: W) -> SerdeResult<()>;
    fn deserialize_from<R: Read>(reader: R) -> SerdeResult<Self>;
}

macro_rules! num {
    ($($t:ty, $n:expr);*) => {$(
        impl ExpSerde for $t {
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                w.write_all(&self.to_le_bytes())?;
                Ok(())
            }
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                let mut b = [0u8; $n];
                r.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
num!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; i32, 4; i64, 8; usize, 8; f64, 8);

impl ExpSerde for () {
    fn serialize_into<W: Write>(&self, _w: W) -> SerdeResult<()> {
        Ok(())
    }
    fn deserialize_from<R: Read>(_r: R) -> SerdeResult<Self> {
        Ok(())
    }
}
impl ExpSerde for bool {
    fn serialize_into<W: Write>(&self, w: W) -> SerdeResult<()> {
        (*self as u8).serialize_into(w)
    }
    fn deserialize_from<R: Read>(r: R) -> SerdeResult<Self> {
        match u8::deserialize_from(r)? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err(SerdeError::DeserializeError),
        }
    }
}
impl ExpSerde for ethnum::U256 {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        w.write_all(&self.to_le_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Ok(ethnum::U256::from_le_bytes(b))
    }
}
impl ExpSerde for String {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut w)?;
        w.write_all(self.as_bytes())?;
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let v = Vec::<u8>::deserialize_from(&mut r)?;
        String::from_utf8(v).map_err(|_| SerdeError::DeserializeError)
    }
}
impl<T: ExpSerde> ExpSerde for Vec<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut w)?;
        for x in self {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut r)?;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::deserialize_from(&mut r)?);
        }
        Ok(v)
    }
}
impl<T: ExpSerde + Default + Copy, const N: usize> ExpSerde for [T; N] {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        for x in self {
            x.serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let mut v = [T::default(); N];
        for x in v.iter_mut() {
            *x = T::deserialize_from(&mut r)?;
        }
        Ok(v)
    }
}
impl<T: ExpSerde> ExpSerde for Option<T> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        match self {
            None => false.serialize_into(&mut w),
            Some(x) => {
                true.serialize_into(&mut w)?;
                x.serialize_into(&mut w)
            }
        }
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        Ok(if bool::deserialize_from(&mut r)? {
            Some(T::deserialize_from(&mut r)?)
        } else {
            None
        })
    }
}
/// Maps are written in the order of their keys, and only so read, unless this is set: the Go
/// packages write them in any order.
pub static ANY_ORDER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
impl<K: ExpSerde + Eq + std::hash::Hash + Ord, V: ExpSerde> ExpSerde for HashMap<K, V> {
    fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
        self.len().serialize_into(&mut w)?;
        let mut ks: Vec<_> = self.keys().collect();
        ks.sort();
        for k in ks {
            k.serialize_into(&mut w)?;
            self[k].serialize_into(&mut w)?;
        }
        Ok(())
    }
    fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
        let n = usize::deserialize_from(&mut r)?;
        let mut m = HashMap::new();
        let mut last: Option<K> = None;
        for _ in 0..n {
            let k = K::deserialize_from(&mut r)?;
            let k2 = {
                // keys are written in increasing order; nothing else is a written map
                let mut b = vec![];
                k.serialize_into(&mut b)?;
                K::deserialize_from(&b[..])?
            };
            if last.as_ref().is_some_and(|l| *l >= k) && !ANY_ORDER.load(std::sync::atomic::Ordering::Relaxed) {
                return Err(SerdeError::DeserializeError);
            }
            last = Some(k2);
            let v = V::deserialize_from(&mut r)?;
            m.insert(k, v);
        }
        Ok(m)
    }
}
macro_rules! tup {
    ($($n:ident),*) => {
        impl<$($n: ExpSerde),*> ExpSerde for ($($n,)*) {
            #[allow(non_snake_case)]
            fn serialize_into<W: Write>(&self, mut w: W) -> SerdeResult<()> {
                let ($($n,)*) = self;
                $($n.serialize_into(&mut w)?;)*
                Ok(())
            }
            fn deserialize_from<R: Read>(mut r: R) -> SerdeResult<Self> {
                Ok(($($n::deserialize_from(&mut r)?,)*))
            }
        }
    };
}
tup!(A, B);
tup!(A, B, D);
tup!(A, B, D, E);
