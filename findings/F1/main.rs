use scc::HashMap;
use std::{cell::RefCell,future::Future,hash::{Hash,Hasher},pin::Pin,task::{Context,Poll,Waker}};
type F=Pin<Box<dyn Future<Output=()>>>;
thread_local!{ static FUT:RefCell<Option<F>>=const{RefCell::new(None)}; static PEND:RefCell<Vec<F>>=const{RefCell::new(vec![])}; static ARM:std::cell::Cell<u32>=const{std::cell::Cell::new(u32::MAX)}; }
#[derive(PartialEq,Eq,Debug)]
struct K(u32);
impl Hash for K { fn hash<H:Hasher>(&self,h:&mut H){
  if ARM.get()==self.0 { ARM.set(u32::MAX);
    if let Some(mut f)=FUT.with_borrow_mut(|f|f.take()) {
      let mut cx=Context::from_waker(Waker::noop());
      match f.as_mut().poll(&mut cx){Poll::Pending=>{println!("pending in relocation"); PEND.with_borrow_mut(|p|p.push(f));},Poll::Ready(())=>println!("ready")}
    }
  }
  h.write_u32(self.0) } }
fn main(){
  let m:&'static HashMap<K,u32>=Box::leak(Box::new(HashMap::new()));
  let mut i=0;
  while m.capacity()<=64 { m.insert_sync(K(i),i).unwrap(); i+=1; }
  println!("grown at {i} entries cap {}",m.capacity());
  // Old buckets still hold the entries; the next operation relocates them.
  FUT.with_borrow_mut(|f|*f=Some(Box::pin(async move { let _=m.upsert_async(K(3),7).await; })));
  ARM.set(3);
  m.read_sync(&K(0),|_,_|());
  for j in 0..i {m.read_sync(&K(j),|_,_|());}
  println!("dropping {} futures",PEND.with_borrow(|p|p.len()));
  PEND.with_borrow_mut(|p|p.clear());
  println!("dropped");
}
