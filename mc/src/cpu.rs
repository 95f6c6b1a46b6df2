//! A short run for processors that have only some of the instructions.
use crate::run::{fnv, Family};
use crate::spec::stream;
use crate::subjects::{self, Subject};
use crate::{want, want_bytes};
use std::sync::Arc;

/// For processors with a subset of the instructions: every engine once through a partial, a
/// full and several blocks.
pub fn families(fams: &mut Vec<Family>) {
    for s in subjects::all() {
        // (HMACs over all but one engine add no code of their own.)
        if s.is_hmac && s.name != "hmac-sha256" {
            continue;
        }
        let s: Arc<Subject> = Arc::new(s);
        let b = s.model.block();
        let lens = if s.is_hmac { vec![b + 1] } else { vec![1, b, 3 * b + 1] };
        fams.push(Family::new(format!("cpu-{}", s.name), lens.len() as u64, move |i, cx| {
            let l = lens[i as usize];
            let msg = stream(l);
            cx.steps(3);
            cx.state(fnv(&[s.name.as_bytes(), &i.to_le_bytes()]));
            cx.desc(|| format!("{} length {}", s.name, l));
            let mut e = (s.make)();
            e.input(&msg[..l / 2]);
            e.input(&msg[l / 2..]);
            let want = s.model.digest(&msg);
            cx.outcome(fnv(&[&want]));
            want_bytes(|| format!("{} digest of {} bytes", s.name, l), &e.fin(), &want)
        }));
    }
    fams.push(Family::new("cpu-fixed-time-eq".to_string(), 20, move |i, cx| {
        let a = stream(i as usize);
        let mut b = a.clone();
        cx.steps(2);
        cx.state(fnv(&[b"eq", &i.to_le_bytes()]));
        want(|| format!("fixed_time_eq of {} equal bytes", i), chf::cmp::fixed_time_eq(&a, &b), true)?;
        if let Some(x) = b.last_mut() {
            *x ^= 0x10;
            want(|| format!("fixed_time_eq of {} bytes, the last differing", i), chf::cmp::fixed_time_eq(&a, &b), false)?;
        }
        Ok(())
    }));
}
