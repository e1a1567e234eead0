//! Exercises the simulator itself: threads, locks, timers, UDP, TCP, tokio.
use super::*;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn scenario() -> Scenario {
    Scenario {
        name: "smoke",
        gen: |r, _, _| serde_json::json!({"n": r.range(1, 5), "ops": (0..r.range(1, 8)).map(|_| r.below(100)).collect::<Vec<_>>()}),
        tune: |r, k, _| tune_net(r, k),
        run,
        real: "",
        stub: "",
        deadlock_is_violation: true,
    }
}

fn run(plan: &Value) {
    let a = crate::sim::node("10.0.1.1");
    let b = crate::sim::node("10.0.1.2");
    let n = plan["n"].as_u64().unwrap();
    let m = Arc::new(Mutex::new(0u64));
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let m = m.clone();
            std::thread::spawn(move || {
                for _ in 0..5 {
                    *m.lock().unwrap() += i;
                    std::thread::sleep(Duration::from_millis(i));
                }
            })
        })
        .collect();
    let srv = crate::sim::spawn_on(b, || {
        let l = std::net::TcpListener::bind("0.0.0.0:80").unwrap();
        let (mut s, _) = l.accept().unwrap();
        let mut v = Vec::new();
        s.read_to_end(&mut v).unwrap();
        s.write_all(&v).unwrap();
        v.len()
    });
    let srv2 = crate::sim::spawn_on(b, || {
        let rt = crate::sim::runtime();
        rt.block_on(async {
            let s = Arc::new(tokio::net::UdpSocket::bind("0.0.0.0:5060").await.unwrap());
            let mut got = 0;
            let mut buf = [0u8; 100];
            loop {
                match tokio::time::timeout(Duration::from_secs(3), s.recv_from(&mut buf)).await {
                    Ok(Ok((n, p))) => {
                        got += 1;
                        let s2 = s.clone();
                        let d = buf[..n].to_vec();
                        tokio::spawn(async move {
                            tokio::time::sleep(Duration::from_millis(5)).await;
                            s2.send_to(&d, p).await.unwrap();
                        });
                    }
                    _ => break,
                }
            }
            got
        })
    });
    let ops: Vec<u64> = serde_json::from_value(plan["ops"].clone()).unwrap();
    let cl = crate::sim::spawn_on(a, move || {
        crate::sim::sleep_ms(100);
        let mut s = std::net::TcpStream::connect("10.0.1.2:80").unwrap();
        s.write_all(&vec![7u8; 100_000]).unwrap();
        s.shutdown(std::net::Shutdown::Write).unwrap();
        let mut v = Vec::new();
        s.read_to_end(&mut v).unwrap();
        assert_eq!(v.len(), 100_000);
        let rt = crate::sim::runtime();
        rt.block_on(async {
            let s = tokio::net::UdpSocket::bind("0.0.0.0:0").await.unwrap();
            let mut back = 0;
            for o in ops {
                s.send_to(&o.to_le_bytes(), "10.0.1.2:5060").await.unwrap();
                let mut buf = [0u8; 100];
                if let Ok(Ok(_)) = tokio::time::timeout(Duration::from_millis(500), s.recv_from(&mut buf)).await {
                    back += 1;
                }
            }
            back
        })
    });
    for h in hs {
        h.join().unwrap();
    }
    let back = cl.join().unwrap();
    let x = srv.join().unwrap();
    let got = srv2.join().unwrap();
    crate::slog!("tcp {x} udp got {got} back {back}");
    let m: std::collections::HashMap<u64, u64> = (0..20).map(|i| (i, i)).collect();
    let o: Vec<_> = m.keys().copied().collect();
    crate::slog!("order {:?} rand {}", o, sip_random());
}
fn sip_random() -> u64 {
    let rl = sip_ratelimit::RateLimiter::new(sip_ratelimit::RateLimitConfig::new(5, 1).unwrap());
    (0..10).filter(|_| rl.check_rate_limit("a")).count() as u64
}
