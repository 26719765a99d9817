//! The known findings: genuine defects of the library that are recorded rather than repaired.
//! Only the committed file decides what is known; it is never written here.
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Known {
    /// (property, key) → what fails
    entries: BTreeMap<(String, String), String>,
}

pub fn root() -> std::path::PathBuf {
    let here = std::path::Path::new(env!("CARGO_MANIFEST_DIR"));
    here.parent().unwrap_or(here).to_path_buf()
}

impl Known {
    pub fn load() -> Result<Known, String> {
        let path = root().join("known-findings.txt");
        let text =
            std::fs::read_to_string(&path).map_err(|e| format!("{}: {e}", path.display()))?;
        Known::parse(&text)
    }

    /// `known: property=<id> key=<key> <what fails>`; other lines are comments or repairs.
    pub fn parse(text: &str) -> Result<Known, String> {
        let mut entries = BTreeMap::new();
        for l in text.lines() {
            let Some(rest) = l.strip_prefix("known: ") else {
                continue;
            };
            let mut it = rest.splitn(3, ' ');
            let id = it.next().and_then(|x| x.strip_prefix("property="));
            let key = it.next().and_then(|x| x.strip_prefix("key="));
            match (id, key, it.next()) {
                (Some(id), Some(key), Some(what)) => {
                    entries.insert((id.to_string(), key.to_string()), what.to_string());
                }
                _ => return Err(format!("malformed line in known-findings.txt: {l}")),
            }
        }
        Ok(Known { entries })
    }

    pub fn has(&self, id: &str, key: &str) -> bool {
        self.entries
            .contains_key(&(id.to_string(), key.to_string()))
    }

    pub fn what(&self, id: &str, key: &str) -> Option<&str> {
        self.entries
            .get(&(id.to_string(), key.to_string()))
            .map(String::as_str)
    }

    pub fn keys(&self, id: &str) -> Vec<&str> {
        self.entries
            .keys()
            .filter(|k| k.0 == id)
            .map(|k| k.1.as_str())
            .collect()
    }
}
