//! The contract of a function speaks of its parameters and local variables by
//! name. When a change renames some, the contract follows: the variables bound
//! in the baseline are aligned with those bound now, in order.
use crate::contracts::FnC;
use std::collections::{HashMap, HashSet};

/// old name -> new name
pub fn renames(old: &[String], new: &[String]) -> HashMap<String, String> {
    let (n, m) = (old.len(), new.len());
    // longest common subsequence
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let mut map: HashMap<String, String> = HashMap::new();
    let mut bad: HashSet<String> = HashSet::new();
    let (mut i, mut j) = (0, 0);
    let (mut gi, mut gj) = (0, 0);
    loop {
        let end = i == n || j == m;
        let hit = !end && old[i] == new[j];
        if hit || end {
            let (ei, ej) = if end { (n, m) } else { (i, j) };
            // a gap of equal length on both sides: renamed one by one
            if ei - gi == ej - gj {
                for k in 0..ei - gi {
                    let (a, b) = (&old[gi + k], &new[gj + k]);
                    if let Some(x) = map.get(a) { if x != b { bad.insert(a.clone()); } }
                    map.insert(a.clone(), b.clone());
                }
            }
            if end { break; }
            i += 1;
            j += 1;
            gi = i;
            gj = j;
        } else if l[i + 1][j] >= l[i][j + 1] { i += 1; } else { j += 1; }
    }
    // a name that is still bound elsewhere keeps its meaning
    map.retain(|a, b| a != b && !bad.contains(a) && !new.contains(a) && a != "_" && b != "_");
    map
}

fn subst(t: &str, map: &HashMap<String, String>) -> String {
    let c: Vec<char> = t.chars().collect();
    let mut o = String::with_capacity(t.len());
    let mut i = 0;
    while i < c.len() {
        if c[i].is_alphabetic() || c[i] == '_' {
            let s = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { i += 1; }
            let w: String = c[s..i].iter().collect();
            let field = s > 0 && c[s - 1] == '.' && !(s > 1 && c[s - 2] == '.');
            let path = s > 0 && c[s - 1] == ':' || c[i..].starts_with(&[':', ':']);
            match map.get(&w) {
                Some(n) if !field && !path && !c[i..].starts_with(&['(']) => o.push_str(n),
                _ => o.push_str(&w),
            }
        } else if c[i].is_ascii_digit() {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') { o.push(c[i]); i += 1; }
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

pub fn apply(c: &mut FnC, map: &HashMap<String, String>) {
    c.spec = subst(&c.spec, map);
    for x in c.loops.values_mut() { *x = subst(x, map); }
    for x in c.at.iter_mut() { x.1 = subst(&x.1, map); }
    for x in c.closures.values_mut() { x.1 = subst(&x.1, map); }
    for x in c.closures_in.values_mut() { x.1 = subst(&x.1, map); }
    if let Some(p) = c.opts.get_mut("panic") { *p = subst(p, map); }
}

/// the variables that the ghost text of a contract declares itself
pub fn ghosts(c: &FnC) -> HashSet<String> {
    let mut o = HashSet::new();
    for (_, t) in &c.at {
        let w: Vec<&str> = t.split(|x: char| !x.is_alphanumeric() && x != '_').filter(|x| !x.is_empty()).collect();
        for i in 0..w.len() {
            if w[i] == "let" && i + 2 < w.len() && (w[i + 1] == "ghost" || w[i + 1] == "tracked") {
                o.insert(if w[i + 2] == "mut" { w[i + 3.min(w.len() - 1 - i)] } else { w[i + 2] }.to_string());
            }
        }
    }
    o
}
