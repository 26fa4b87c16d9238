/// Every word over `alphabet` of length `0..=max`, as leaked strings (the space is small).
pub fn words(alphabet: &str, max: usize) -> Vec<&'static str> {
    let al: Vec<char> = alphabet.chars().collect();
    let mut out: Vec<String> = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..max {
        let mut next = Vec::with_capacity(last.len() * al.len());
        for w in &last {
            for c in &al {
                let mut w2 = w.clone();
                w2.push(*c);
                next.push(w2);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}
