use std::borrow::Cow;
pub struct Htpasswd<'a>(pub std::collections::BTreeMap<Cow<'a, str>, Cow<'a, str>>);
impl Htpasswd<'static> {
    pub fn new_owned(bytes: &str) -> Self {
        Htpasswd(bytes.lines().filter_map(|l| l.split_once(':')).map(|(u, h)| (Cow::Owned(u.trim().to_string()), Cow::Owned(h.trim().to_string()))).collect())
    }
}
impl<'a> Htpasswd<'a> {
    pub fn check<S: AsRef<str>>(&self, username: S, password: S) -> bool {
        use base64::Engine; use sha1::Digest;
        match self.0.get(username.as_ref()) {
            None => false,
            Some(h) => match h.strip_prefix("{SHA}") {
                Some(d) => base64::engine::general_purpose::STANDARD.encode(sha1::Sha1::digest(password.as_ref().as_bytes())) == d,
                None => h == password.as_ref(),
            },
        }
    }
}
