//! Stand-in: the HTML5 e-mail rule.
pub fn validate_email<'a, T: Into<std::borrow::Cow<'a, str>>>(v: T) -> bool {
    let v = v.into();
    regex::Regex::new(r"^[a-zA-Z0-9.!#$%&'*+/=?^_`{|}~-]+@[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*$").unwrap().is_match(&v)
}
