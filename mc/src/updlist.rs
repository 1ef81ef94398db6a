//! C08: the update list as an ordered, serializable list.
use crate::model::*;
use crate::run::*;
use crate::{must, must_eq};
use graphannis_core::graph::update::{GraphUpdate, UpdateEvent};
use serde_json::json;

fn event(i: usize, n: usize) -> UpdateEvent {
    let c = comp("Pointing", if n % 2 == 0 { "" } else { "l" }, &format!("c{n}"));
    let v = match n % 4 {
        0 => String::new(),
        1 => format!("v{n}"),
        2 => "ä\u{1d11e}\0\n".to_string(),
        _ => "x".repeat(5000),
    };
    match i {
        0 => add_node(&format!("n{n}"), &v),
        1 => del_node(&v),
        2 => add_label(&v, "ns", "", &format!("{n}")),
        3 => del_label(&format!("n{n}"), &v, "a"),
        4 => add_edge(&v, "t", &c),
        5 => del_edge("s", &v, &c),
        6 => add_elabel("s", "t", &c, "ns", "k", &v),
        _ => del_elabel("s", &v, &c, &v, "k"),
    }
}

fn compare(u: &GraphUpdate, exp: &[UpdateEvent]) -> Result<(), String> {
    must_eq!(es(u.len(), "len")?, exp.len(), "len");
    must_eq!(es(u.is_empty(), "is_empty")?, exp.is_empty(), "is_empty");
    let it = es(u.iter(), "iter")?;
    must_eq!(it.size_hint(), (exp.len(), Some(exp.len())), "size_hint");
    let mut n = 0;
    for x in it {
        let (id, e) = es(x, "iterating")?;
        must!(n < exp.len(), "more events returned than the {} added ones", exp.len());
        must_eq!(id, n as u64 + 1, "number of event at position {n}");
        must_eq!(e, exp[n], "event at position {n}");
        n += 1;
    }
    must_eq!(n, exp.len(), "number of events returned by the iterator");
    Ok(())
}

fn round_trip(u: &GraphUpdate, how: usize) -> Result<GraphUpdate, String> {
    match how {
        0 => {
            let b = es(bincode::serialize(u), "serialize")?;
            es(bincode::deserialize(&b), "deserialize")
        }
        1 => {
            let d = tmpdir("ul");
            let p = d.path().join("update_log.bin");
            let mut f = std::fs::File::create(&p).unwrap();
            es(bincode::serialize_into(&mut f, u), "serialize")?;
            es(bincode::deserialize_from(std::fs::File::open(&p).unwrap()), "deserialize")
        }
        _ => {
            // the format used by external tools
            let b = es(serde_json::to_string(u), "serialize to JSON")?;
            es(serde_json::from_str(&b), "deserialize from JSON")
        }
    }
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every sequence of adding an event (8 event types), iterating, partly iterating, serializing and deserializing (binary and JSON) up to the depth on the real update list, compared with a vector after every step; distinct = distinct event lists with the position of the serializations".into();
    let ops = 11usize; // 8 events, iterate, partial iterate, round trip
    let depth = run.q(5, 6);
    let it = (1..=depth).flat_map(move |d| (0..(ops as u64).pow(d as u32)).map(move |x| (d, x)));
    run.par_n(8, 256, it, |(d, mut x)| {
        let mut v = vec![0; d];
        for i in (0..d).rev() {
            v[i] = (x % ops as u64) as usize;
            x /= ops as u64;
        }
        run.case(
            || format!("hist/{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
            || {
                let mut u = GraphUpdate::new();
                let mut exp: Vec<UpdateEvent> = vec![];
                for (n, o) in v.iter().enumerate() {
                    match o {
                        0..=7 => {
                            let e = event(*o, n);
                            es(u.add_event(e.clone()), "add_event")?;
                            exp.push(e);
                        }
                        8 => compare(&u, &exp).map_err(|e| format!("step {n}: {e}"))?,
                        9 => {
                            let _ = es(u.iter(), "iter")?.next();
                        }
                        _ => u = round_trip(&u, n % 3)?,
                    }
                }
                run.trans(v.len() as u64);
                run.state(&v);
                compare(&u, &exp)?;
                // iterating must not change anything
                compare(&u, &exp).map_err(|e| format!("second time: {e}"))?;
                compare(&round_trip(&u, d % 3)?, &exp).map_err(|e| format!("after serializing: {e}"))?;
                compare(&u, &exp).map_err(|e| format!("original after serializing: {e}"))
            },
        );
    });
    let sizes: Vec<usize> = run.q(vec![0, 1, 255, 256, 257, 1000, 5000], vec![0, 1, 2, 16, 127, 128, 255, 256, 257, 1000, 4096, 32767, 65535, 65536, 65537, 100_000]);
    let mut work = vec![];
    for n in sizes {
        for cut in [0, 1, n / 2, n] {
            for how in 0..3 {
                work.push((n, cut, how));
            }
        }
    }
    run.par_n(8, 1, work.into_iter(), |(n, cut, how)| {
        run.case(
            || format!("large/{n}/{cut}/{how}"),
            || {
                let mut u = GraphUpdate::new();
                let mut exp = vec![];
                for i in 0..n {
                    if i == cut {
                        u = round_trip(&u, how)?;
                    }
                    let e = event(i % 8, if i % 97 == 3 { 3 } else { i * 4 + 1 });
                    es(u.add_event(e.clone()), "add_event")?;
                    exp.push(e);
                }
                run.trans(n as u64);
                run.state(&(n, cut, how));
                compare(&u, &exp)?;
                compare(&round_trip(&u, how)?, &exp)
            },
        );
    });
    run.note("bounds", json!({"depth": depth, "operations": ops}));
}
