// Which handles are Send and Sync, for an element type with each combination
// of the two.  An auto trait can depend on the element type only through
// these bounds, so the four cases stand for every type.
use std::cell::Cell;
use std::marker::PhantomData;
use thingbuf::mpsc::{self, blocking};
use thingbuf::{recycling::Recycle, Ref, StaticThingBuf, ThingBuf};

/// Neither, moved only, shared only, both.
#[derive(Default, Clone)] pub struct Neither(PhantomData<*const ()>);
#[derive(Default, Clone)] pub struct Moves(PhantomData<Cell<()>>);
#[derive(Default, Clone)] pub struct Shares(PhantomData<*const ()>);
unsafe impl Sync for Shares {}
#[derive(Default, Clone)] pub struct Both;
pub struct NoSync(#[allow(dead_code)] PhantomData<Cell<()>>);
impl<T: Default> Recycle<T> for NoSync { fn new_element(&self) -> T { T::default() } fn recycle(&self, _: &mut T) {} }
pub struct NoSend(#[allow(dead_code)] PhantomData<*const ()>);
impl<T: Default> Recycle<T> for NoSend { fn new_element(&self) -> T { T::default() } fn recycle(&self, _: &mut T) {} }

struct S<T: ?Sized>(PhantomData<T>);
struct Y<T: ?Sized>(PhantomData<T>);
trait No { const IS: bool = false; }
impl<T: ?Sized> No for S<T> {}
impl<T: ?Sized> No for Y<T> {}
impl<T: ?Sized + Send> S<T> { const IS: bool = true; }
impl<T: ?Sized + Sync> Y<T> { const IS: bool = true; }

/// Reports each (handle, trait) that must not hold but does.
pub fn traits(bad: &mut dyn FnMut(&'static str, &'static str)) -> usize {
    let mut n = 0;
    // who may be sent only with a Send element, and shared only with a Send (elements move) or Sync (elements are read) one
    macro_rules! one {
        ($n:expr, $t:ty, $send:expr, $sync:expr) => {
            n += 2;
            if !$send && S::<$t>::IS { bad(concat!(stringify!($t), " with element ", $n), "can be sent to another thread") }
            if !$sync && Y::<$t>::IS { bad(concat!(stringify!($t), " with element ", $n), "can be shared with another thread") }
        };
    }
    macro_rules! all {
        ($($e:ident $s:expr, $y:expr;)*) => { $(
            // elements move through these from whichever thread
            one!(stringify!($e), ThingBuf<$e>, $s, $s);
            one!(stringify!($e), StaticThingBuf<$e, 2>, $s, $s);
            one!(stringify!($e), mpsc::Sender<$e>, $s, $s);
            one!(stringify!($e), mpsc::Receiver<$e>, $s, $s);
            one!(stringify!($e), mpsc::StaticSender<$e>, $s, $s);
            one!(stringify!($e), mpsc::StaticReceiver<$e>, $s, $s);
            one!(stringify!($e), mpsc::StaticChannel<$e, 2>, $s, $s);
            one!(stringify!($e), mpsc::RecvRefFuture<'static, $e>, $s, $s);
            one!(stringify!($e), mpsc::RecvFuture<'static, $e>, $s, $s);
            one!(stringify!($e), blocking::Sender<$e>, $s, $s);
            one!(stringify!($e), blocking::Receiver<$e>, $s, $s);
            one!(stringify!($e), blocking::StaticSender<$e>, $s, $s);
            one!(stringify!($e), blocking::StaticReceiver<$e>, $s, $s);
            one!(stringify!($e), blocking::StaticChannel<$e, 2>, $s, $s);
            // a reference gives exclusive access where it is, shared access where it is shared
            one!(stringify!($e), Ref<'static, $e>, $s, $y);
            one!(stringify!($e), mpsc::SendRef<'static, $e>, $s, $y);
            one!(stringify!($e), mpsc::RecvRef<'static, $e>, $s, $y);
            one!(stringify!($e), blocking::SendRef<'static, $e>, $s, $y);
            one!(stringify!($e), blocking::RecvRef<'static, $e>, $s, $y);
        )* };
    }
    all! { Neither false, false; Moves true, false; Shares false, true; Both true, true; }
    // the policy is used from every thread that has a handle
    macro_rules! policy {
        ($($h:ty),*) => { $( one!("policy that is not Sync", $h, false, false); )* };
    }
    policy!(mpsc::Sender<Both, NoSync>, mpsc::Receiver<Both, NoSync>, mpsc::StaticSender<Both, NoSync>, mpsc::StaticReceiver<Both, NoSync>,
        blocking::Sender<Both, NoSync>, blocking::Receiver<Both, NoSync>, blocking::StaticSender<Both, NoSync>, blocking::StaticReceiver<Both, NoSync>,
        &'static ThingBuf<Both, NoSync>, &'static StaticThingBuf<Both, 2, NoSync>, ThingBuf<Both, NoSend>, StaticThingBuf<Both, 2, NoSend>);
    n
}
