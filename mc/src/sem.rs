//! The application's side: scopes, abilities and semantics given to the
//! library, and an independent reference reading of capabilities.
use anyhow::{anyhow, Error};
use serde_json::Value;
use ucan::capability::{Ability, CapabilitySemantics, CapabilityView, Resource, ResourceUri, Scope};
use url::Url;

/// `app:/some/path`, containing everything below that path
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct PathScope(pub String);

fn below(outer: &str, inner: &str) -> bool {
    outer == "/"
        || outer == inner
        || (inner.starts_with(outer) && inner.as_bytes().get(outer.len()) == Some(&b'/'))
}

impl Scope for PathScope {
    fn contains(&self, other: &Self) -> bool {
        below(&self.0, &other.0)
    }
}

impl ToString for PathScope {
    fn to_string(&self) -> String {
        format!("app:{}", self.0)
    }
}

impl TryFrom<Url> for PathScope {
    type Error = Error;
    fn try_from(url: Url) -> Result<Self, Error> {
        let rest = match url.scheme() {
            "app" => url.path(),
            "my" => url.path().strip_prefix("app:").unwrap_or(url.path()),
            other => return Err(anyhow!("not ours: {other}")),
        };
        // a path that begins with two slashes would be rendered as a host, and
        // white space at the end would be lost
        if rest.starts_with('/') && !rest.starts_with("//") && !rest.ends_with(' ') {
            Ok(PathScope(rest.to_string()))
        } else {
            Err(anyhow!("no path"))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Act {
    Read,
    Write,
    Admin,
}

impl Ability for Act {}

impl ToString for Act {
    fn to_string(&self) -> String {
        ABILITIES[*self as usize].to_string()
    }
}

pub const ABILITIES: [&str; 3] = ["app/read", "app/write", "app/admin"];

impl TryFrom<String> for Act {
    type Error = Error;
    fn try_from(s: String) -> Result<Self, Error> {
        Ok(match s.as_str() {
            "app/read" => Act::Read,
            "app/write" => Act::Write,
            "app/admin" => Act::Admin,
            _ => return Err(anyhow!("unknown ability")),
        })
    }
}

pub struct AppSemantics;
impl CapabilitySemantics<PathScope, Act> for AppSemantics {}
pub type View = CapabilityView<PathScope, Act>;

// ---------------------------------------------------------------------------
// Reference reading

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Plain,
    My,
    As(String),
}

/// A capability as the reference model sees it
#[derive(Clone, PartialEq, Debug)]
pub struct RCap {
    pub kind: Kind,
    /// None is the wildcard
    pub path: Option<String>,
    pub ability: usize,
    pub caveat: Value,
}

fn path_of(uri: &str) -> Option<Option<String>> {
    // what follows the scheme of an application resource
    match uri {
        "*" => Some(None),
        p if p.starts_with('/') && !p.starts_with("//") => Some(Some(p.to_string())),
        _ => None,
    }
}

/// What a claim means, for the texts our alphabets contain; None: unrecognised
pub fn ref_parse(resource: &str, ability: &str, caveat: &Value) -> Option<RCap> {
    let ability = ABILITIES.iter().position(|a| *a == ability)?;
    let (kind, path) = if resource == "*" {
        (Kind::Plain, None)
    } else if let Some(rest) = resource.strip_prefix("my:") {
        let rest = rest.strip_prefix("app:").unwrap_or(rest);
        (Kind::My, path_of(rest)?)
    } else if let Some(rest) = resource.strip_prefix("as:") {
        let parts: Vec<&str> = rest.splitn(4, ':').collect();
        if parts.len() != 4 || parts[0] != "did" || parts[1] != "key" {
            return None;
        }
        let did = format!("did:key:{}", parts[2]);
        let path = match parts[3] {
            "*" => None,
            uri => path_of(uri.strip_prefix("app:")?)?,
        };
        (Kind::As(did), path)
    } else {
        (Kind::Plain, path_of(resource.strip_prefix("app:")?)?)
    };
    Some(RCap {
        kind,
        path,
        ability,
        caveat: caveat.clone(),
    })
}

pub fn caveat_allows(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(a), Value::Object(b)) => {
            a.iter().all(|(k, v)| b.get(k).is_some_and(|w| w == v))
        }
        _ => false,
    }
}

impl RCap {
    pub fn enables(&self, other: &RCap) -> bool {
        self.kind == other.kind
            && match (&self.path, &other.path) {
                (None, _) => true,
                (Some(a), Some(b)) => below(a, b),
                (Some(_), None) => false,
            }
            && self.ability >= other.ability
            && caveat_allows(&self.caveat, &other.caveat)
    }
    pub fn show(&self) -> String {
        let kind = match &self.kind {
            Kind::Plain => "".to_string(),
            Kind::My => "my:".to_string(),
            Kind::As(d) => format!("as:{d}:"),
        };
        format!(
            "{kind}{} {} {}",
            self.path.as_deref().unwrap_or("*"),
            ABILITIES[self.ability],
            self.caveat
        )
    }
}

/// What the library recognised, in the reference model's terms
pub fn of_view(v: &View) -> RCap {
    let (kind, uri) = match v.resource() {
        Resource::Resource { kind } => (Kind::Plain, kind),
        Resource::My { kind } => (Kind::My, kind),
        Resource::As { did, kind } => (Kind::As(did.clone()), kind),
    };
    RCap {
        kind,
        path: match uri {
            ResourceUri::Unscoped => None,
            ResourceUri::Scoped(s) => Some(s.0.clone()),
        },
        ability: *v.ability() as usize,
        caveat: v.caveat().clone(),
    }
}
