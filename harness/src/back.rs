//! Backups and snapshots: C05, C06, C17.
use crate::coll::*;
use crate::sigs::{archive, gzip, Member};
use crate::util::*;
use ruplicity::{Backup, Snapshot};
use std::collections::{BTreeMap, BTreeSet};

fn manifest_text(name: &str) -> Vec<u8> { format!("Hostname {}\nLocaldir /\n", name).into_bytes() }

fn with_files(r: &mut Rng, names: &[String]) -> Mem {
    let mut mem = Mem::default();
    for n in names {
        let data = match parse_name(n) {
            Parsed::Yes(i) => match i.kind {
                Kind::FullMan | Kind::IncMan => manifest_text(n),
                Kind::FullSig | Kind::NewSig => {
                    // a path that tells which file it came from, and one that every signature changes
                    let m = Member::new(format!("snapshot/m-{}", n.to_ascii_lowercase()).as_bytes(), b'0');
                    let mut z = Member::new(b"snapshot/z", b'0');
                    z.mtime = if !(0..1 << 33).contains(&i.end) { crate::sigs::Field::Binary(i.end as u64) } else { crate::sigs::Field::Octal(i.end as u64) };
                    let a = archive(&[m, z]);
                    if i.gz { gzip(&a) } else { a }
                }
                _ => vec![r.next() as u8; 3],
            },
            _ => vec![],
        };
        mem.add(n, data);
    }
    mem
}

fn markers(s: &ruplicity::SnapshotEntries) -> (BTreeSet<String>, Option<i64>) {
    let mut set = BTreeSet::new();
    let mut z = None;
    for e in s.as_signature() {
        let p = String::from_utf8_lossy(e.path_bytes()).to_string();
        if p == "z" { z = Some(e.mtime().sec); } else { set.insert(p); }
    }
    (set, z)
}

pub fn c05(r: &mut Rng) -> Case {
    let mut names = if r.chance(1, 40) {
        // a long chain
        let n = r.range(256, 300);
        let mut v = vec![name_of(Kind::FullMan, &stamp(0), "", "", false, "")];
        for k in 0..n { v.push(name_of(Kind::IncMan, &stamp(k), &stamp(k + 1), "", false, "")); }
        v
    } else { let n = r.range(0, 14); let rich = r.chance(1, 3); let sigs = r.chance(1, 3); listing(r, n, rich, sigs) };
    if r.chance(1, 10) { names.truncate(1); }
    let mem = with_files(r, &names);
    let opened = mem.opened.clone();
    let input = format!("listing {:?}", names);
    trying(&input);
    let res = (|| -> Result<bool, String> {
        let b = Backup::new(mem).map_err(|e| format!("{:?}", e))?;
        let snaps = b.snapshots().map_err(|e| format!("{:?}", e))?;
        let col = snaps.as_collections();
        let want: Vec<_> = col.backup_chains().flat_map(|c| std::iter::once(c.full_set()).chain(c.inc_sets())).collect();
        if want.len() != col.num_snapshots() { return Err(format!("{} snapshots reported, {} sets", col.num_snapshots(), want.len())); }
        let m = model(&names);
        if !m.unclear && !m.ties && !m.claims {
            let k: Vec<(bool, i64, i64, usize)> = m.dump.chains.iter().flat_map(|c| &c.sets).map(|s| (s.full, s.start, s.end, s.num)).collect();
            let g: Vec<(bool, i64, i64, usize)> = want.iter().map(|s| (s.is_full(), s.start_time().sec, s.end_time().sec, s.num_volumes())).collect();
            if k != g { return Err(format!("sets {:?} instead of {:?}", g, k)); }
        }
        let mut it = b.snapshots().unwrap().into_iter();
        let mut list: Vec<Snapshot> = vec![];
        for (k, w) in want.iter().enumerate() {
            let s = it.next().ok_or(format!("{} snapshots instead of {}", k, want.len()))?;
            if !std::ptr::eq(s.as_backup_set(), *w) { return Err(format!("snapshot {} is not set {}", k, k)); }
            if s.time() != w.end_time() || s.is_full() != w.is_full() || s.is_incremental() != w.is_incremental() || s.num_volumes() != w.num_volumes() {
                return Err(format!("snapshot {} has other attributes than its set", k));
            }
            list.push(s);
        }
        for _ in 0..3 { if it.next().is_some() { return Err("a snapshot after the last one".into()); } }
        let mut order: Vec<usize> = (0..list.len()).collect();
        r.shuffle(&mut order);
        order.truncate(30);
        for k in order {
            let before = opened.borrow().len();
            let path = want[k].manifest_path();
            match list[k].manifest() {
                Ok(man) => if man.hostname() != path || path.is_empty() { return Err(format!("snapshot {} has the manifest {:?} instead of {:?}", k, man.hostname(), path)); },
                Err(e) => if !path.is_empty() { return Err(format!("manifest of snapshot {}: {:?}", k, e)); },
            }
            let o = opened.borrow();
            if o.len() != before + 1 || o[before].0 != path { return Err(format!("snapshot {} opened {:?} instead of {:?}", k, &o[before..], path)); }
        }
        // any way to step through them gives the same ones
        let mut it = b.snapshots().unwrap().into_iter();
        let mut at = 0;
        let mut done = vec![];
        let same = |k: usize, s: Option<Snapshot>, done: &[(u8, usize)]| -> Result<(), String> {
            match (s, want.get(k)) {
                (None, None) => Ok(()),
                (Some(s), Some(w)) if std::ptr::eq(s.as_backup_set(), *w) && s.time() == w.end_time() && s.is_full() == w.is_full() && s.num_volumes() == w.num_volumes() => match s.manifest() {
                    Ok(man) if man.hostname() != w.manifest_path() => Err(format!("after the steps {:?} (0-1 next, 2-3 nth, 4 size_hint), snapshot {} has the manifest {:?} instead of {:?}", done, k, man.hostname(), w.manifest_path())),
                    _ => Ok(()),
                },
                (s, _) => Err(format!("the steps {:?} (0-1 next, 2-3 nth, 4 size_hint) lead to {:?} instead of snapshot {} of {}", done, s.map(|s| s.time().sec), k, want.len())),
            }
        };
        for _ in 0..r.range(1, 8) {
            let (op, n) = (r.below(5) as u8, if r.chance(1, 8) { want.len() } else { r.below(4) });
            done.push((op, n));
            match op {
                0 | 1 => { same(at, it.next(), &done)?; at = (at + 1).min(want.len()); }
                2 | 3 => { let k = (at + n).min(want.len()); same(k, it.nth(n), &done)?; at = (k + 1).min(want.len()); }
                _ => {
                    let (lo, hi) = it.size_hint();
                    if lo > want.len() - at || hi.map_or(false, |h| h < want.len() - at) { return Err(format!("size_hint is {:?} where {} snapshots are left", (lo, hi), want.len() - at)); }
                }
            }
        }
        let left = want.len() - at;
        match r.below(5) {
            0 => { let c = it.count(); if c != left { return Err(format!("after the steps {:?}, {} snapshots are counted instead of {}", done, c, left)); } }
            1 => { done.push((9, 0)); same(if left == 0 { want.len() } else { want.len() - 1 }, it.last(), &done)?; }
            2 => { let n = r.range(1, 3); for (i, s) in it.step_by(n).enumerate() { same(at + i * n, Some(s), &done)?; } }
            3 => { let n = r.below(4); for (i, s) in it.skip(n).enumerate() { same(at + n + i, Some(s), &done)?; } }
            _ => { for (i, s) in it.collect::<Vec<_>>().into_iter().enumerate() { same(at + i, Some(s), &done)?; } }
        }
        Ok(want.len() < 2)
    })();
    match res { Ok(t) => Case::ok(input, t), Err(e) => Case::bad(input, e) }
}

/// What `entries` should give for each snapshot: the markers of the files it is made from.
fn expected(m: &Model) -> Vec<Option<(BTreeSet<String>, i64, Vec<String>)>> {
    let mut out = vec![];
    for c in &m.dump.chains {
        let sig = m.dump.sigs.iter().find(|s| s[0].time == c.start);
        for (k, s) in c.sets.iter().enumerate() {
            out.push(match sig {
                Some(sig) if k < sig.len() && sig[k].time == s.end => Some((
                    sig[..=k].iter().map(|f| format!("m-{}", f.name.to_ascii_lowercase())).collect(), s.end, sig.iter().map(|f| f.name.clone()).collect())),
                _ => None,
            });
        }
    }
    out
}

fn sig_listing(r: &mut Rng) -> Vec<String> {
    let mut names;
    if r.chance(1, 60) {
        let n = r.range(256, 290);
        names = vec![name_of(Kind::FullMan, &stamp(0), "", "", false, ""), name_of(Kind::FullSig, &stamp(0), "", "", false, "")];
        for k in 0..n {
            names.push(name_of(Kind::IncMan, &stamp(k), &stamp(k + 1), "", false, ""));
            names.push(name_of(Kind::NewSig, &stamp(k), &stamp(k + 1), "", false, ""));
        }
    } else if r.chance(1, 25) {
        // many chains
        names = vec![];
        for k in 0..r.range(5, 36) {
            names.push(name_of(Kind::FullMan, &stamp(2 * k), "", "", false, ""));
            names.push(name_of(Kind::FullSig, &stamp(2 * k), "", "", false, ""));
            if r.chance(1, 4) {
                names.push(name_of(Kind::IncMan, &stamp(2 * k), &stamp(2 * k + 1), "", false, ""));
                names.push(name_of(Kind::NewSig, &stamp(2 * k), &stamp(2 * k + 1), "", false, ""));
            }
        }
        r.shuffle(&mut names);
    } else if r.chance(1, 2) {
        // chains that overlap in time: the first goes on after the second began
        names = vec![];
        let nchain = r.range(1, 4);
        let mut now = vec![];
        let mut t = 0;
        for _ in 0..r.range(2, 12) {
            t += 1;
            if now.len() < nchain && (now.is_empty() || r.chance(1, 3)) {
                names.push(name_of(Kind::FullMan, &stamp(t), "", "", false, ""));
                names.push(name_of(Kind::FullSig, &stamp(t), "", "", false, *r.pick(&["", ".gz"])));
                now.push(t);
            } else {
                let c = r.below(now.len());
                names.push(name_of(Kind::IncMan, &stamp(now[c]), &stamp(t), "", false, ""));
                let gz = *r.pick(&["", ".gz"]);
                if r.chance(1, 8) {
                    // the signatures of two backups, of which one is gone
                    t += 1;
                    names.pop();
                    names.push(name_of(Kind::IncMan, &stamp(now[c]), &stamp(t), "", false, ""));
                    names.push(name_of(Kind::NewSig, &stamp(now[c]), &stamp(t - 1), "", false, gz));
                    names.push(name_of(Kind::NewSig, &stamp(t - 1), &stamp(t), "", false, gz));
                } else { names.push(name_of(Kind::NewSig, &stamp(now[c]), &stamp(t), "", false, gz)); }
                now[c] = t;
            }
        }
        r.shuffle(&mut names);
    } else { let n = r.range(1, 10); names = listing(r, n, false, true); }
    // take some files away
    if r.chance(2, 3) { for _ in 0..r.range(1, 2) { if names.len() > 1 { let k = r.below(names.len()); names.remove(k); } } }
    names
}

pub fn c06(r: &mut Rng) -> Case {
    let names = sig_listing(r);
    let mut mem = with_files(r, &names);
    // some files cannot be opened although they are listed
    let mut broken = vec![];
    if r.chance(1, 4) {
        let s: Vec<&String> = names.iter().filter(|n| n.to_ascii_lowercase().contains("signatures")).collect();
        if !s.is_empty() { let n = r.pick(&s).to_string(); mem.files.remove(&n); broken.push(n); }
    }
    let input = format!("listing {:?}, unreadable {:?}", names, broken);
    trying(&input);
    let m = model(&names);
    let res = (|| -> Result<bool, String> {
        let b = Backup::new(mem).map_err(|e| format!("{:?}", e))?;
        let list: Vec<Snapshot> = b.snapshots().unwrap().into_iter().collect();
        if m.ties || m.sig_ties || m.claims || m.unclear {
            // the chains are those that the library shows
            let col = b.snapshots().unwrap().as_collections();
            let mut list = list.iter();
            for c in col.backup_chains() {
                let sigs: Vec<Vec<_>> = col.signature_chains().filter(|x| x.start_time() == c.start_time()).map(|x| std::iter::once(x.full_signature()).chain(x.inc_signatures()).collect()).collect();
                for (k, s) in std::iter::once(c.full_set()).chain(c.inc_sets()).enumerate() {
                    let snap = list.next().ok_or("too few snapshots")?;
                    if !std::ptr::eq(snap.as_backup_set(), s) { return Err("the snapshots are not the sets of the chains".into()); }
                    let fits: Vec<bool> = sigs.iter().map(|x| x.get(k).map_or(false, |f| f.time == s.end_time())).collect();
                    match snap.entries() {
                        Ok(e) => {
                            let (set, z) = markers(&e);
                            let own = |x: &Vec<&ruplicity::collections::SignatureFile>| x[..=k].iter().map(|f| format!("m-{}", f.file_name.to_ascii_lowercase())).collect::<BTreeSet<_>>() == set;
                            if z != Some(s.end_time().sec) || !sigs.iter().zip(&fits).any(|(x, f)| *f && own(x)) {
                                return Err(format!("the snapshot at {} is made from {:?} at {:?}", s.end_time().sec, set, z));
                            }
                        }
                        Err(e) => if broken.is_empty() && !fits.is_empty() && fits.iter().all(|f| *f) { return Err(format!("the snapshot at {}: {:?}, although all its signatures are present", s.end_time().sec, e)); },
                    }
                }
            }
            return Ok(true);
        }
        let want = expected(&m);
        if want.len() != list.len() { return Err(format!("{} snapshots instead of {}", list.len(), want.len())); }
        let mut order: Vec<usize> = (0..list.len()).collect();
        r.shuffle(&mut order);
        for k in order {
            let w = want[k].as_ref().filter(|w| !w.2.iter().any(|f| broken.contains(f)));
            match (list[k].entries(), w) {
                (Ok(e), Some(w)) => {
                    let (set, z) = markers(&e);
                    if set != w.0 || z != Some(w.1) { return Err(format!("snapshot {} at {} is made from {:?} at {:?} instead of {:?}", k, w.1, set, z, w.0)); }
                }
                (Ok(e), None) => return Err(format!("snapshot {} at {} should be an error, but is made from {:?}", k, list[k].time().sec, markers(&e).0)),
                (Err(e), Some(_)) => return Err(format!("snapshot {}: {:?}, although all its signatures are present", k, e)),
                (Err(_), None) => {}
            }
        }
        Ok(list.len() < 2)
    })();
    match res { Ok(t) => Case::ok(input, t), Err(e) => Case::bad(input, e) }
}

pub fn c17(r: &mut Rng) -> Case {
    let names = sig_listing(r);
    let mem = with_files(r, &names);
    let (opened, fail, calls, fail_after) = (mem.opened.clone(), mem.fail.clone(), mem.calls.clone(), mem.fail_after.clone());
    let requests = if names.len() > 20 { 120 } else { 40 };
    let faults: Vec<bool> = (0..requests).map(|_| r.chance(1, 5)).collect();
    let input = format!("listing {:?}, faults before requests {:?}", names, faults.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>());
    trying(&input);
    let m = model(&names);
    let res = (|| -> Result<bool, String> {
        let b = Backup::new(mem).map_err(|e| format!("{:?}", e))?;
        let list: Vec<Snapshot> = b.snapshots().unwrap().into_iter().collect();
        let clear = !(m.ties || m.sig_ties || m.claims || m.unclear);
        let want = expected(&m);
        if clear && want.len() != list.len() { return Err(format!("{} snapshots instead of {}", list.len(), want.len())); }
        if list.is_empty() { return Ok(true); }
        let chain_of: Vec<i64> = b.snapshots().unwrap().as_collections().backup_chains().flat_map(|c| std::iter::repeat(c.start_time().sec).take(1 + c.inc_sets().len())).collect();
        let mut chains: BTreeSet<i64> = BTreeSet::new(); // chains that have been read
        let mut mans: BTreeMap<usize, String> = BTreeMap::new();
        let mut held_e = vec![];
        let mut held_m = vec![];
        for (q, f) in faults.iter().enumerate() {
            let k = r.below(list.len());
            let is_man = r.chance(1, 3);
            let files = want.get(k).and_then(|w| w.as_ref()).map_or(0, |w| w.2.len());
            let at = calls.get();
            fail.borrow_mut().clear();
            fail_after.set(None);
            let mut by_stream = false;
            if *f {
                if is_man && r.chance(1, 2) { fail_after.set(Some(r.below(12))); by_stream = true; }
                else { let x = if is_man { 0 } else { r.below(files.max(1)) }; fail.borrow_mut().push(at + x); }
            }
            let n0 = opened.borrow().len();
            if is_man {
                let path = list[k].as_backup_set().manifest_path().to_string();
                match list[k].manifest() {
                    Ok(man) => {
                        let n = opened.borrow().len() - n0;
                        if mans.contains_key(&k) { if n != 0 { return Err(format!("request {}: the manifest of snapshot {} was read again", q, k)); } }
                        else if *f { return Err(format!("request {}: the failure to read the manifest of snapshot {} was lost", q, k)); }
                        else if n != 1 { return Err(format!("request {}: the manifest of snapshot {} took {} calls", q, k, n)); }
                        if man.hostname() != path || path.is_empty() { return Err(format!("request {}: snapshot {} has the manifest {}", q, k, man.hostname())); }
                        mans.insert(k, path);
                        held_m.push((k, man));
                    }
                    Err(e) => {
                        if mans.contains_key(&k) { return Err(format!("request {}: the manifest of snapshot {} was read but is an error now: {:?}", q, k, e)); }
                        if !*f && !path.is_empty() { return Err(format!("request {}: manifest of snapshot {}: {:?}", q, k, e)); }
                        if opened.borrow().len() == n0 { return Err(format!("request {}: the manifest of snapshot {} was not asked for again", q, k)); }
                    }
                }
                let _ = by_stream;
            } else if clear {
                let c = chain_of[k];
                match (list[k].entries(), &want[k]) {
                    (Ok(e), Some(w)) => {
                        let n = opened.borrow().len() - n0;
                        if chains.contains(&c) { if n != 0 { return Err(format!("request {}: the signatures of snapshot {} were read again", q, k)); } }
                        else if *f { return Err(format!("request {}: the failure to open a signature of snapshot {} was lost", q, k)); }
                        else if n != w.2.len() { return Err(format!("request {}: snapshot {} took {} calls for {} signatures", q, k, n, w.2.len())); }
                        let (set, z) = markers(&e);
                        if set != w.0 || z != Some(w.1) { return Err(format!("request {}: snapshot {} is made from {:?}", q, k, set)); }
                        chains.insert(c);
                        held_e.push((k, e));
                    }
                    (Ok(_), None) => return Err(format!("request {}: snapshot {} should be an error", q, k)),
                    (Err(e), Some(_)) => {
                        if chains.contains(&c) { return Err(format!("request {}: snapshot {} was read but is an error now: {:?}", q, k, e)); }
                        if !*f { return Err(format!("request {}: snapshot {}: {:?}", q, k, e)); }
                    }
                    (Err(_), None) => {
                        // other snapshots of the chain can have been read by this
                        let n = opened.borrow().len() - n0;
                        if n > 0 && chains.contains(&c) { return Err(format!("request {}: the signatures of the chain of snapshot {} were read again", q, k)); }
                        if n > 0 && opened.borrow()[n0..].iter().all(|x| x.1) { chains.insert(c); }
                    }
                }
            } else { let _ = list[k].entries(); }
            if r.chance(1, 4) { held_e.clear(); }
            if r.chance(1, 4) { held_m.clear(); }
        }
        // what is still held has not changed
        for (k, e) in &held_e {
            let (set, _) = markers(e);
            if let Some(w) = &want[*k] { if set != w.0 { return Err(format!("the entries held for snapshot {} changed", k)); } }
        }
        for (k, man) in &held_m { if man.hostname() != mans[k] { return Err(format!("the manifest held for snapshot {} changed", k)); } }
        Ok(!clear)
    })();
    match res { Ok(t) => Case::ok(input, t), Err(e) => Case::bad(input, e) }
}
