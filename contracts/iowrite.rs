/// Stand-in for `std::io::Write`: assumed contract of its implementations (`write_all` is a provided method of it
/// which repeats short writes).
pub trait IoWrite {
    spec fn written(&self) -> Seq<u8>;
    spec fn faulty(&self) -> bool;
    fn write_all(&mut self, buf: &[u8]) -> (r: std::io::Result<()>)
        ensures
            final(self).faulty() == old(self).faulty(),
            match r {
                Ok(_) => final(self).written() == old(self).written() + buf@,
                Err(_) => old(self).faulty(),
            };
}

