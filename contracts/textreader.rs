// ---- What is assumed of the source of bytes --------------------------------------------------

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_body]
fn io_error() -> std::io::Error { unimplemented!() }

/// Stand-in for `std::io::Read`: assumed contract of its implementations. `rest` is what the source
/// still delivers, `faulty` says that it may report I/O errors of its own.
pub trait IoRead {
    spec fn rest(&self) -> Seq<u8>;
    spec fn faulty(&self) -> bool;

    fn read(&mut self, buf: &mut [u8]) -> (r: std::io::Result<usize>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            final(self).faulty() == old(self).faulty(),
            match r {
                Ok(n) => {
                    &&& n <= old(buf)@.len()
                    &&& old(self).rest() == final(buf)@.take(n as int) + final(self).rest()
                    &&& n == 0 && old(buf)@.len() > 0 ==> old(self).rest().len() == 0
                },
                Err(_) => old(self).faulty(),
            };

    fn read_exact(&mut self, buf: &mut [u8]) -> (r: std::io::Result<()>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            final(self).faulty() == old(self).faulty(),
            match r {
                Ok(_) => old(self).rest() == final(buf)@ + final(self).rest(),
                Err(_) => old(self).faulty() || old(self).rest().len() < old(buf)@.len(),
            };
}

pub assume_specification<T> [std::slice::from_mut] (x: &mut T) -> (r: &mut [T])
    ensures
        r@ == seq![*old(x)],
        final(r)@ == seq![*final(x)];

pub assume_specification [char::from_u32] (i: u32) -> (r: Option<char>)
    ensures
        match r {
            Some(c) => c as u32 == i && is_scalar(i),
            None => !is_scalar(i),
        };

pub assume_specification [<char as From<u8>>::from] (x: u8) -> (r: char)
    ensures r as u32 == x as u32;
