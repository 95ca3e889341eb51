//! Stand-in for dissimilar: a character diff with the same contract (chunks concatenate to both sides,
//! no two adjacent chunks of the same kind, a deletion precedes an insertion at the same place).
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Chunk<'a> { Equal(&'a str), Delete(&'a str), Insert(&'a str) }
pub fn diff<'a>(a: &'a str, b: &'a str) -> Vec<Chunk<'a>> {
    let ac: Vec<(usize, char)> = a.char_indices().collect();
    let bc: Vec<(usize, char)> = b.char_indices().collect();
    let mut p = 0;
    while p < ac.len() && p < bc.len() && ac[p].1 == bc[p].1 { p += 1; }
    let mut s = 0;
    while s < ac.len() - p && s < bc.len() - p && ac[ac.len() - 1 - s].1 == bc[bc.len() - 1 - s].1 { s += 1; }
    let (am, bm) = (&ac[p..ac.len() - s], &bc[p..bc.len() - s]);
    let off = |v: &Vec<(usize, char)>, i: usize, t: &str| if i < v.len() { v[i].0 } else { t.len() };
    let mut ops: Vec<(u8, usize, usize)> = vec![]; // kind, index in a, index in b
    let (n, m) = (am.len(), bm.len());
    if n * m <= 4_000_000 {
        let w = m + 1;
        let mut t = vec![0u32; (n + 1) * w];
        for i in (0..n).rev() { for j in (0..m).rev() {
            t[i * w + j] = if am[i].1 == bm[j].1 { t[(i + 1) * w + j + 1] + 1 } else { t[(i + 1) * w + j].max(t[i * w + j + 1]) };
        } }
        let (mut i, mut j) = (0, 0);
        while i < n || j < m {
            if i < n && j < m && am[i].1 == bm[j].1 && t[i * w + j] == t[(i + 1) * w + j + 1] + 1 { ops.push((0, i, j)); i += 1; j += 1; }
            else if i < n && (j >= m || t[(i + 1) * w + j] >= t[i * w + j + 1]) { ops.push((1, i, j)); i += 1; }
            else { ops.push((2, i, j)); j += 1; }
        }
    } else {
        for i in 0..n { ops.push((1, i, 0)); }
        for j in 0..m { ops.push((2, n, j)); }
    }
    let mut out: Vec<Chunk<'a>> = vec![];
    if p > 0 { out.push(Chunk::Equal(&a[..off(&ac, p, a)])); }
    let mut k = 0;
    while k < ops.len() {
        if ops[k].0 == 0 {
            let st = k;
            while k < ops.len() && ops[k].0 == 0 { k += 1; }
            let (x, y) = (off(&ac, p + ops[st].1, a), off(&ac, p + ops[k - 1].1 + 1, a));
            match out.last_mut() { Some(Chunk::Equal(e)) => { let s0 = y - (y - x) - e.len(); *e = &a[s0..y]; } _ => out.push(Chunk::Equal(&a[x..y])) }
        } else {
            let (mut d, mut i): (Option<(usize, usize)>, Option<(usize, usize)>) = (None, None);
            while k < ops.len() && ops[k].0 != 0 {
                let r = if ops[k].0 == 1 { (&mut d, ops[k].1) } else { (&mut i, ops[k].2) };
                match r.0 { Some((_, e)) => *e = r.1 + 1, None => *r.0 = Some((r.1, r.1 + 1)) }
                k += 1;
            }
            if let Some((x, y)) = d { out.push(Chunk::Delete(&a[off(&ac, p + x, a)..off(&ac, p + y, a)])); }
            if let Some((x, y)) = i { out.push(Chunk::Insert(&b[off(&bc, p + x, b)..off(&bc, p + y, b)])); }
        }
    }
    if s > 0 {
        let st = off(&ac, ac.len() - s, a);
        match out.last_mut() { Some(Chunk::Equal(e)) => { let s0 = st - e.len(); *e = &a[s0..]; } _ => out.push(Chunk::Equal(&a[st..])) }
    }
    out
}
#[cfg(test)] mod tests { use super::*; #[test] fn concat() { for (a, b) in [("abc", "axc"), ("", "x"), ("x", ""), ("héllo\nw", "hello \n w\n"), ("aab", "ab"), ("1\n2+2\n3\n", "1\n2 + 2\n3\n")] {
    let d = diff(a, b); let (mut l, mut r) = (String::new(), String::new());
    for c in &d { match c { Chunk::Equal(e) => { l += e; r += e } Chunk::Delete(e) => l += e, Chunk::Insert(e) => r += e } } assert_eq!((l.as_str(), r.as_str()), (a, b), "{d:?}"); } } }
