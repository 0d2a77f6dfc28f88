D='src/driver.rs'
C="        if BLOCK_ON_COUNT.load(Ordering::SeqCst) > 0 {\n            // Exp"
def c(n,b): return (n,[(D,C,b+" {\n            // Exp")])
M=[
c('q-ne',"        if BLOCK_ON_COUNT.load(Ordering::SeqCst) != 0"),
c('q-var',"        let others = BLOCK_ON_COUNT.load(Ordering::SeqCst);\n        let busy = others >= 1;\n        if busy"),
('q-continue',[(D,C,"        if BLOCK_ON_COUNT.load(Ordering::SeqCst) == 0 {\n            continue;\n        }\n        {\n            // Exp")]),
('q-fn',[(D,C,"        if someone_blocks() {\n            // Exp"),(D,"/// The main loop for","fn someone_blocks() -> bool {\n    BLOCK_ON_COUNT.load(Ordering::SeqCst) > 0\n}\n\n/// The main loop for")]),
('q-match',[(D,C,"        if !matches!(BLOCK_ON_COUNT.load(Ordering::SeqCst), 0) {\n            // Exp")]),
('q-checked',[(D,C,"        if BLOCK_ON_COUNT.load(Ordering::SeqCst).checked_sub(1).is_some() {\n            // Exp")]),
('q-yield',[(D,"                sleeps += 1;\n            }\n        }","                sleeps += 1;\n            }\n        } else {\n            thread::yield_now();\n        }")]),
('b-lt',[(D,C,"        if BLOCK_ON_COUNT.load(Ordering::SeqCst) > 1 {\n            // Exp")]),
('b-never',[(D,C,"        if BLOCK_ON_COUNT.load(Ordering::SeqCst) == usize::MAX {\n            // Exp")]),
('b-nopark',[(D,"if parker.park_timeout(Duration::from_micros(*delay_us)) {","let _ = (&parker, delay_us);\n            if sleeps == 300 {")]),
('b-sleeps0',[(D,C,"        if BLOCK_ON_COUNT.load(Ordering::SeqCst) > 0 && sleeps < 10 {\n            // Exp")]),

('b-initial',[(D,"const { Cell::new(false) }","const { Cell::new(true) }")]),
('b-initial-lazy',[(D,"const { Cell::new(false) }","Cell::new(true)")]),
('q-initial-lazy',[(D,"const { Cell::new(false) }","Cell::new(false)")]),
('q-initial-not',[(D,"const { Cell::new(false) }","const { Cell::new(!true) }")]),
('b-noreact',[(D,"                    tracing::trace!(\"waiting on I/O\");\n                    reactor_lock.react(None).ok();\n\n","                    tracing::trace!(\"waiting on I/O\");\n                    let _ = &mut reactor_lock;\n\n")]),
('q-react-timeout',[(D,"                    tracing::trace!(\"waiting on I/O\");\n                    reactor_lock.react(None).ok();\n\n","                    tracing::trace!(\"waiting on I/O\");\n                    if let Err(e) = reactor_lock.react(None) { tracing::trace!(\"{e}\"); }\n\n")]),
]
