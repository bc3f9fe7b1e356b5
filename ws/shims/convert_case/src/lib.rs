//! Stand-in for convert_case 0.6 (snake case only), with its default word boundaries.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Case {
    Snake,
}
pub trait Casing {
    fn to_case(&self, case: Case) -> String;
}
fn words(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut cur = String::new();
    for i in 0..c.len() {
        if matches!(c[i], '_' | '-' | ' ') {
            out.push(std::mem::take(&mut cur));
            continue;
        }
        if i > 0 && !cur.is_empty() {
            let (p, n) = (c[i - 1], c[i]);
            let dig = |c: char| c.is_ascii_digit();
            let split = (p.is_lowercase() && n.is_uppercase())
                || (p.is_uppercase() && dig(n))
                || (dig(p) && n.is_uppercase())
                || (dig(p) && n.is_lowercase())
                || (p.is_lowercase() && dig(n))
                || (p.is_uppercase() && n.is_uppercase() && c.get(i + 1).map(|x| x.is_lowercase()).unwrap_or(false));
            if split {
                out.push(std::mem::take(&mut cur));
            }
        }
        cur.push(c[i]);
    }
    out.push(cur);
    out.into_iter().filter(|w| !w.is_empty()).collect()
}
impl<T: AsRef<str>> Casing for T {
    fn to_case(&self, _case: Case) -> String {
        words(self.as_ref()).iter().map(|w| w.to_lowercase()).collect::<Vec<_>>().join("_")
    }
}
