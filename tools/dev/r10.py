D='src/driver.rs'
M=[('q-hog-count',[(D,"                let start = Instant::now();\n","                let mut steps = 0;\n"),(D,"if start.elapsed() > Duration::from_micros(500) {","steps += 1;\n                    if steps > 16 {"),(D,"use std::time::{Duration, Instant};","use std::time::Duration;")]),
('q-hog-now',[(D,"if start.elapsed() > Duration::from_micros(500) {","if Instant::now() > start + Duration::from_micros(500) {")]),
('b-hog',[(D,"                let start = Instant::now();\n",""),(D,"if start.elapsed() > Duration::from_micros(500) {","if std::hint::black_box(false) {"),(D,"use std::time::{Duration, Instant};","use std::time::Duration;")]),
]
