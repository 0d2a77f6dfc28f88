// C06/C09: set_at/set_after make the timer emit one event.
use findings::*;
use async_io::Timer;
use futures_lite::{future, StreamExt};
use std::time::{Duration, Instant};

fn main() {
    watchdog(20);
    let mut t = Timer::interval(Duration::from_millis(20));
    t.set_at(Instant::now() + Duration::from_millis(10));
    let fired = future::block_on(async { t.next().await.is_some() });
    assert!(fired);
    let again = t.will_fire();
    println!("fires again: {}", again);
    std::process::exit(if again { 1 } else { 0 });
}
