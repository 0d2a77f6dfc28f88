//! block_on() in the destructor of a thread-local that runs after the thread's cached parker is destroyed.
//! Fixed: prints "got 7" and "done".  Before: the destructor panics and the process is aborted.
struct D;
impl Drop for D {
    fn drop(&mut self) {
        println!("got {}", async_io::block_on(async { 7 }));
    }
}
thread_local!(static X: D = const { D });
fn main() {
    std::thread::spawn(|| {
        X.with(|_| ());
        async_io::block_on(async {});
    })
    .join()
    .unwrap();
    println!("done");
}
