//! Stand-in: parses "browser/major.minor.patch; device brand model; os/major.minor.patch.pm".
use std::borrow::Cow;
#[derive(Debug, Clone, PartialEq)]
pub struct Device<'a> { pub family: Cow<'a, str>, pub brand: Option<Cow<'a, str>>, pub model: Option<Cow<'a, str>> }
#[derive(Debug, Clone, PartialEq)]
pub struct OS<'a> { pub family: Cow<'a, str>, pub major: Option<Cow<'a, str>>, pub minor: Option<Cow<'a, str>>, pub patch: Option<Cow<'a, str>>, pub patch_minor: Option<Cow<'a, str>> }
#[derive(Debug, Clone, PartialEq)]
pub struct UserAgent<'a> { pub family: Cow<'a, str>, pub major: Option<Cow<'a, str>>, pub minor: Option<Cow<'a, str>>, pub patch: Option<Cow<'a, str>> }
#[derive(Debug, Clone, PartialEq)]
pub struct Client<'a> { pub device: Device<'a>, pub os: OS<'a>, pub user_agent: UserAgent<'a> }
pub trait Parser { fn parse<'a>(&self, ua: &'a str) -> Client<'a>; }
#[derive(Debug, Clone, Default)]
pub struct UserAgentParser;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("uaparser") } }
impl std::error::Error for Error {}
impl UserAgentParser {
    pub fn stand_in() -> Self { UserAgentParser }
    pub fn from_yaml(_p: &str) -> Result<Self, Error> { Ok(UserAgentParser) }
}
fn ver(s: &str) -> (Cow<'_, str>, Vec<Option<Cow<'_, str>>>) {
    let (f, v) = s.split_once('/').unwrap_or((s, ""));
    let mut p: Vec<Option<Cow<'_, str>>> = v.split('.').filter(|x| !x.is_empty()).map(|x| Some(Cow::Borrowed(x))).collect();
    p.resize(4, None);
    (Cow::Borrowed(if f.is_empty() { "Other" } else { f }), p)
}
impl Parser for UserAgentParser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a> {
        let mut it = ua.split(';').map(|x| x.trim());
        let (bf, bv) = ver(it.next().unwrap_or(""));
        let mut d = it.next().unwrap_or("").split(' ').filter(|x| !x.is_empty());
        let device = Device { family: Cow::Borrowed(d.next().unwrap_or("Other")), brand: d.next().map(Cow::Borrowed), model: d.next().map(Cow::Borrowed) };
        let (of, ov) = ver(it.next().unwrap_or(""));
        Client {
            device,
            os: OS { family: of, major: ov[0].clone(), minor: ov[1].clone(), patch: ov[2].clone(), patch_minor: ov[3].clone() },
            user_agent: UserAgent { family: bf, major: bv[0].clone(), minor: bv[1].clone(), patch: bv[2].clone() },
        }
    }
}
