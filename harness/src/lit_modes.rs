use lit::config::{BooleanExpr, FeatureSet};
use serde_json::{Value, json};

/// A feature expression and its value for every given set of features.
pub fn bool_case(c: &Value) -> Value {
    match c["text"].as_str().unwrap().parse::<BooleanExpr>() {
        Err(_) => json!({"verdict": "error", "values": []}),
        Ok(e) => {
            let values: Vec<bool> = c["sets"]
                .as_array()
                .unwrap()
                .iter()
                .map(|s| {
                    let mut fs = FeatureSet::default();
                    for f in s.as_array().unwrap() {
                        fs.insert(f.as_str().unwrap().to_string());
                    }
                    e.evaluate(&fs)
                })
                .collect();
            json!({"verdict": "ok", "values": values})
        }
    }
}

