//! Stand-in for fallible-streaming-iterator 0.1 (only what the repository calls).
pub trait FallibleStreamingIterator {
    type Item: ?Sized;
    type Error;
    fn advance(&mut self) -> Result<(), Self::Error>;
    fn get(&self) -> Option<&Self::Item>;
    fn next(&mut self) -> Result<Option<&Self::Item>, Self::Error> {
        self.advance()?;
        Ok(self.get())
    }
}
pub struct Convert<I, T> {
    it: I,
    item: Option<T>,
}
pub fn convert<I, T, E>(it: I) -> Convert<I::IntoIter, T>
where I: IntoIterator<Item = Result<T, E>> {
    Convert { it: it.into_iter(), item: None }
}
impl<I, T, E> FallibleStreamingIterator for Convert<I, T>
where I: Iterator<Item = Result<T, E>>
{
    type Item = T;
    type Error = E;
    fn advance(&mut self) -> Result<(), E> {
        self.item = match self.it.next() {
            Some(Ok(v)) => Some(v),
            Some(Err(e)) => return Err(e),
            None => None,
        };
        Ok(())
    }
    fn get(&self) -> Option<&T> {
        self.item.as_ref()
    }
}
