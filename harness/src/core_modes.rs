use litcheck::diagnostics::{
    ByteIndex, ByteOffset, ColumnIndex, ColumnNumber, DefaultSourceManager, FileLineCol, FileName, LineIndex,
    LineNumber, Location, Position, Selection, SourceContent, SourceFileRef, SourceId, SourceLanguage,
    SourceManager, SourceSpan, Span,
};
use litcheck::fs::PathPrefixTree;
use litcheck::range::{self, Range};
use serde_json::{Value, json};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};

/// The value of `f`, or "refused" if it panics.
fn or_refused(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!("refused"))
}

fn u(v: &Value) -> u64 {
    v.as_u64().unwrap()
}

// ------------------------------------------------------------------ path tree
fn comps(p: &Path) -> Value {
    p.components().map(|c| c.as_os_str().to_str().unwrap().to_string()).collect::<Vec<_>>().into()
}

/// Insertions into a path tree, and all that can be asked of it afterwards.
pub fn path_tree_case(c: &Value) -> Value {
    // Paths begin with the scratch directory when there is one.
    let base = c["base"].as_str().map(PathBuf::from);
    let real = |v: &Value| -> PathBuf {
        let p = v.as_str().unwrap();
        match (&base, p.strip_prefix("@")) {
            (Some(b), Some(rest)) => PathBuf::from(format!("{}{rest}", b.display())),
            _ => PathBuf::from(p),
        }
    };
    let shown = |p: &Path| -> Value {
        match &base {
            Some(b) => match p.strip_prefix(b) {
                Ok(rest) => {
                    let mut v = vec![json!("@")];
                    v.extend(comps(rest).as_array().unwrap().iter().cloned());
                    Value::Array(v)
                }
                Err(_) => comps(p),
            },
            None => comps(p),
        }
    };
    let mut tree = PathPrefixTree::<u64>::default();
    let mut results = vec![];
    for op in c["ops"].as_array().unwrap() {
        match op[0].as_str().unwrap() {
            "ins" => results.push(or_refused(|| match tree.try_insert(real(&op[1]), u(&op[2])) {
                Ok(()) => json!("ok"),
                Err(_) => json!("error"),
            })),
            "clear" => {
                tree.clear();
                results.push(json!("ok"));
            }
            other => panic!("{other}"),
        }
    }
    let entry = |e: litcheck_entry::Entry| json!([shown(&e.0), e.1]);
    let list = |it: Vec<litcheck_entry::Entry>| Value::Array(it.into_iter().map(entry).collect());
    let qs = c["queries"].as_array().unwrap();
    let get: Vec<Value> = qs
        .iter()
        .map(|q| {
            or_refused(|| {
                let p = real(q);
                let v = tree.get(&p).copied();
                if tree.contains(&p) != v.is_some() {
                    return json!("contains and get disagree");
                }
                v.map(|v| json!([v])).unwrap_or(json!([]))
            })
        })
        .collect();
    let near: Vec<Value> = qs
        .iter()
        .map(|q| {
            or_refused(|| match tree.nearest_ancestor(real(q)) {
                Some(e) => json!([[shown(&e.path), *e.data]]),
                None => json!([]),
            })
        })
        .collect();
    let kids: Vec<Value> = qs
        .iter()
        .map(|q| {
            Value::Array(
                [None, Some(0), Some(1), Some(2)]
                    .into_iter()
                    .map(|d| {
                        or_refused(|| list(tree.children(real(q), d).map(|e| (e.path, *e.data)).collect()))
                    })
                    .collect(),
            )
        })
        .collect();
    json!({
        "res": results, "get": get, "near": near, "kids": kids,
        "iter": or_refused(|| list(tree.iter().map(|e| (e.path, *e.data)).collect())),
        "files": or_refused(|| list(tree.files().map(|e| (e.path, *e.data)).collect())),
    })
}
mod litcheck_entry {
    pub type Entry = (std::path::PathBuf, u64);
}

// ------------------------------------------------------------------ texts
fn codes(s: &str) -> Value {
    s.chars().map(|c| c as u32).collect::<Vec<_>>().into()
}
fn opt<T: Into<Value>>(o: Option<T>) -> Value {
    match o {
        Some(v) => json!([v.into()]),
        None => json!([]),
    }
}
fn selection(v: &Value) -> Option<Selection> {
    v.as_array().map(|s| Selection {
        start: Position::new(u(&s[0]) as u32, u(&s[1]) as u32),
        end: Position::new(u(&s[2]) as u32, u(&s[3]) as u32),
    })
}

/// Edits of a text, and every place asked for afterwards.
pub fn source_case(c: &Value) -> Value {
    let mut t = SourceContent::new("text", "t", c["text"].as_str().unwrap());
    let mut results = vec![];
    for (i, e) in c["edits"].as_array().unwrap().iter().enumerate() {
        let before = t.as_str().to_string();
        let r = or_refused(|| {
            match t.update(e[0].as_str().unwrap().to_string(), selection(&e[1]), i as i32 + 1) {
                Ok(()) => json!("ok"),
                Err(_) => json!("refused"),
            }
        });
        if r == json!("refused") && t.as_str() != before {
            return json!({"res": ["refused, but changed"]});
        }
        results.push(r);
    }
    let n = t.len() as u32;
    let lines = t.line_count() as u32;
    let width = c["width"].as_u64().unwrap() as u32;
    let range = |r: Range<ByteIndex>| json!([r.start.to_u32(), r.end.to_u32()]);
    json!({
        "res": results,
        "text": codes(t.as_str()),
        "lines": lines,
        "last": t.last_line_index().to_u32(),
        "ranges": (0..lines + 2).map(|l| or_refused(|| opt(t.line_range(LineIndex(l)).map(range)))).collect::<Vec<_>>(),
        "starts": (0..lines + 2).map(|l| or_refused(|| opt(t.line_start(LineIndex(l)).map(|x| x.to_u32())))).collect::<Vec<_>>(),
        "index": (0..=n).map(|o| or_refused(|| json!(t.line_index(ByteIndex(o)).to_u32()))).collect::<Vec<_>>(),
        "places": (0..n + 3)
            .map(|o| or_refused(|| opt(t.location(ByteIndex(o)).map(|l| json!([l.line.to_u32(), l.column.to_u32()])))))
            .collect::<Vec<_>>(),
        "offsets": (0..lines + 2)
            .map(|l| {
                (0..width)
                    .map(|k| or_refused(|| opt(t.line_column_to_offset(LineIndex(l), ColumnIndex(k)).map(|x| x.to_u32()))))
                    .collect::<Vec<_>>()
            })
            .collect::<Vec<_>>(),
        "selected": c["sels"].as_array().unwrap().iter()
            .map(|s| or_refused(|| opt(t.select(selection(s).unwrap()).map(codes))))
            .collect::<Vec<_>>(),
    })
}

// ------------------------------------------------------------------ the source store
fn group(id: SourceId) -> &'static str {
    if id.is_unknown() {
        "unknown"
    } else if id.is_cli_argument() {
        "argument"
    } else {
        "file"
    }
}
fn handle(id: SourceId) -> Value {
    json!([group(id), id.to_index()])
}
fn source_id(v: &Value) -> SourceId {
    let n = u(&v[1]) as u32;
    match v[0].as_str().unwrap() {
        "file" => SourceId::file(n),
        "argument" => SourceId::argument(n),
        _ => SourceId::UNKNOWN,
    }
}
fn name(v: &Value) -> FileName {
    FileName::Virtual(v.as_str().unwrap().to_string().into())
}

/// One request to the store and its answer. Texts handed out are kept in `held`.
fn request(m: &DefaultSourceManager, held: &mut Vec<SourceFileRef>, op: &Value) -> Value {
    let span = |v: &Value, s: &Value, e: &Value| {
        SourceSpan::new(source_id(v), Range::new(u(s) as u32, u(e) as u32))
    };
    match op[0].as_str().unwrap() {
        "load" => {
            let f = if op[1] == json!("argument") {
                let n: &'static str = Box::leak(op[2].as_str().unwrap().to_string().into_boxed_str());
                m.load_argument(n, op[3].as_str().unwrap().to_string())
            } else {
                m.load(SourceLanguage::Unknown, name(&op[2]), op[3].as_str().unwrap().to_string())
            };
            if f.as_str() != op[3].as_str().unwrap() || f.uri() != &name(&op[2]) {
                return json!("another file");
            }
            handle(f.id())
        }
        "update" => match m.update(source_id(&op[1]), op[2].as_str().unwrap().to_string(), selection(&op[3]), 1) {
            Ok(()) => json!("ok"),
            Err(_) => json!("refused"),
        },
        "get" => match m.get(source_id(&op[1])) {
            Ok(f) if f.id() == source_id(&op[1]) => json!([f.uri().as_str(), codes(f.as_str())]),
            Ok(_) => json!("another file"),
            Err(_) => json!("refused"),
        },
        "find" => match m.find(&name(&op[1])) {
            Some(id) => handle(id),
            None => json!("refused"),
        },
        "named" => match m.get_by_uri(&name(&op[1])) {
            Some(f) => json!([f.uri().as_str(), codes(f.as_str())]),
            None => json!("refused"),
        },
        "hold" => match m.source(source_id(&op[1])) {
            Ok(r) => {
                held.push(r);
                json!("ok")
            }
            Err(_) => json!("refused"),
        },
        "held" => match held.get(u(&op[1]) as usize) {
            Some(r) => codes(r.as_str()),
            None => json!("refused"),
        },
        "slice" => match m.source_slice(span(&op[1], &op[2], &op[3])) {
            Ok(r) => codes(r.as_str()),
            Err(_) => json!("refused"),
        },
        // to line and column, and back
        "place" => match m.file_line_col(span(&op[1], &op[2], &op[2])) {
            Ok(l) => json!([l.uri.as_str(), l.line.to_u32(), l.column.to_u32()]),
            Err(_) => json!("refused"),
        },
        "placed" => {
            let lc = FileLineCol::new(name(&op[1]), LineIndex(u(&op[2]) as u32), ColumnIndex(u(&op[3]) as u32));
            match m.file_line_col_to_span(lc) {
                Some(s) => json!([handle(s.source_id()), s.start().to_u32(), s.end().to_u32()]),
                None => json!("refused"),
            }
        }
        "locate" => match m.location(span(&op[1], &op[2], &op[3])) {
            Ok(l) => json!([l.uri.as_str(), l.start.to_u32(), l.end.to_u32()]),
            Err(_) => json!("refused"),
        },
        "located" => {
            let l = Location::new(name(&op[1]), ByteIndex(u(&op[2]) as u32), ByteIndex(u(&op[3]) as u32));
            match m.location_to_span(l) {
                Some(s) => json!([handle(s.source_id()), s.start().to_u32(), s.end().to_u32()]),
                None => json!("refused"),
            }
        }
        // what one manager has, copied into another
        "copy" => match m.get(source_id(&op[1])) {
            Ok(f) => {
                let same = m.copy_into(&f);
                let other = DefaultSourceManager::default();
                let g = other.copy_into(&f);
                json!([handle(same.id()), m.is_manager_of(&f), other.is_manager_of(&f), codes(g.as_str()), group(g.id())])
            }
            Err(_) => json!("refused"),
        },
        other => panic!("{other}"),
    }
}

/// Requests to a source store, one after the other; or, with "threads", at the same time.
pub fn manager_case(c: &Value) -> Value {
    use std::sync::atomic::{AtomicU64, Ordering};
    let m = DefaultSourceManager::default();
    let mut held = vec![];
    let ans: Vec<Value> = c["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|op| or_refused(|| request(&m, &mut held, op)))
        .collect();
    let Some(threads) = c["threads"].as_array() else {
        return json!({"ans": ans});
    };
    let clock = AtomicU64::new(0);
    let barrier = std::sync::Barrier::new(threads.len());
    let runs: Vec<Vec<Value>> = std::thread::scope(|s| {
        let hs: Vec<_> = threads
            .iter()
            .map(|ops| {
                let (m, clock, barrier) = (&m, &clock, &barrier);
                s.spawn(move || {
                    let mut held = vec![];
                    barrier.wait();
                    ops.as_array()
                        .unwrap()
                        .iter()
                        .map(|op| {
                            let from = clock.fetch_add(1, Ordering::SeqCst);
                            let a = or_refused(|| request(m, &mut held, op));
                            json!([from, clock.fetch_add(1, Ordering::SeqCst), a])
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    json!({"ans": ans, "runs": runs})
}

// ------------------------------------------------------------------ ranges and spans
/// Numbers are written as [0, n], those near the maximum of their type as [1, -k] for k below it.
fn top(v: &Value, max: u64) -> u64 {
    if v[0] == json!(1) { max - v[1].as_i64().unwrap().unsigned_abs() } else { u(&v[1]) }
}
fn put(n: u64, max: u64) -> Value {
    if n > max - 1000 { json!([1, -((max - n) as i64)]) } else { json!([0, n]) }
}

pub fn selection_case(c: &Value) -> Value {
    let a: Vec<&Value> = c["args"].as_array().unwrap().iter().collect();
    let pair8 = |r: Range<u8>| json!([r.start, r.end]);
    let v = or_refused(|| match c["op"].as_str().unwrap() {
        // ranges of bytes, whose maximum is in reach
        "new" => pair8(Range::new(u(a[0]) as u8, u(a[1]) as u8)),
        "len" => json!(Range::new(u(a[0]) as u8, u(a[1]) as u8).len()),
        "empty" => json!(Range::new(u(a[0]) as u8, u(a[1]) as u8).is_empty()),
        "contains" => json!(Range::new(u(a[0]) as u8, u(a[1]) as u8).contains(&(u(a[2]) as u8))),
        "pop_front" => {
            let mut r = Range::new(u(a[0]) as u8, u(a[1]) as u8);
            let x = r.pop_front();
            json!([opt(x), pair8(r)])
        }
        "pop_back" => {
            let mut r = Range::new(u(a[0]) as u8, u(a[1]) as u8);
            let x = r.pop_back();
            json!([opt(x), pair8(r)])
        }
        "shrink_front" => {
            let mut r = Range::new(u(a[0]) as u8, u(a[1]) as u8);
            r.shrink_front(u(a[2]) as u8);
            pair8(r)
        }
        "truncate" => {
            let mut r = Range::new(u(a[0]) as u8, u(a[1]) as u8);
            r.truncate(u(a[2]) as u8);
            pair8(r)
        }
        // bounds: ["in"|"ex"|"un", n] for each end
        "resolve" | "default" => {
            use std::ops::Bound;
            const MAX: u64 = usize::MAX as u64;
            let b = |v: &Value| match v[0].as_str().unwrap() {
                "in" => Bound::Included(top(&v[1], MAX) as usize),
                "ex" => Bound::Excluded(top(&v[1], MAX) as usize),
                _ => Bound::Unbounded,
            };
            let (lo, hi) = (top(a[2], MAX) as usize, top(a[3], MAX) as usize);
            let out = |s: usize, e: usize| json!([put(s as u64, MAX), put(e as u64, MAX)]);
            if c["op"] == json!("resolve") {
                match range::range_from_bounds((b(a[0]), b(a[1])), Range::new(lo, hi)) {
                    Ok(r) => out(r.start, r.end),
                    Err(_) => json!("refused"),
                }
            } else {
                let r = range::range_from_bounds_with_defaults((b(a[0]), b(a[1])), lo, hi);
                out(r.start, r.end)
            }
        }
        // spans
        "span" => {
            const MAX: u64 = u32::MAX as u64;
            match SourceSpan::try_from_range(SourceId::file(0), top(a[0], MAX) as usize..top(a[1], MAX) as usize) {
                Ok(s) => json!([put(s.start().to_u32() as u64, MAX), put(s.end().to_u32() as u64, MAX), s.len() == 0, s.is_empty()]),
                Err(_) => json!("refused"),
            }
        }
        "span_over" => match SourceSpan::try_from_range(SourceId::file(0), 0..u32::MAX as usize + u(a[0]) as usize) {
            Ok(s) => json!(s.end().to_u32() == u32::MAX),
            Err(_) => json!("refused"),
        },
        "span_at" => {
            let s = SourceSpan::at(SourceId::file(3), u(a[0]) as u32);
            json!([s.start().to_u32(), s.end().to_u32(), s.len(), s.is_empty(), s.is_unknown()])
        }
        "span_slice" => {
            let s = SourceSpan::new(SourceId::file(0), Range::new(u(a[0]) as u32, u(a[1]) as u32));
            codes(std::str::from_utf8(&b"abcdef"[..][s]).unwrap())
        }
        // shift or extend by d - e
        "shift" | "extend" => {
            const MAX: u64 = u32::MAX as u64;
            let d = ByteOffset::from_str_len(&"x".repeat(u(a[2]) as usize))
                - ByteOffset::from_str_len(&"x".repeat(u(a[3]) as usize));
            let (s, e) = (top(a[0], MAX) as u32, top(a[1], MAX) as u32);
            let mut s = Span::new(SourceSpan::new(SourceId::file(0), Range::new(s, e)), ());
            if c["op"] == json!("shift") { s.shift(d) } else { s.extend(d) };
            let s = s.span();
            json!([put(s.start().to_u32() as u64, MAX), put(s.end().to_u32() as u64, MAX)])
        }
        "selection" => {
            let p = |i: usize| Position::new(u(a[i]) as u32, u(a[i + 1]) as u32);
            let s = Selection::new(p(0), p(2));
            let mut t = Selection { start: p(0), end: p(2) };
            t.canonicalize();
            if s != t {
                return json!("new and canonicalize disagree");
            }
            json!([s.start.line.to_u32(), s.start.character.to_u32(), s.end.line.to_u32(), s.end.character.to_u32()])
        }
        // two ranges: every way to compare them, and what they say of themselves
        "order" => {
            let (x, y) = (Range::new(u(a[0]) as u8, u(a[1]) as u8), Range::new(u(a[2]) as u8, u(a[3]) as u8));
            let sign = |o: std::cmp::Ordering| o as i8;
            json!([
                sign(x.cmp(&y)),
                opt(x.partial_cmp(&y).map(sign)),
                [x < y, x <= y, x > y, x >= y, x == y, x != y],
                pair8(x.max(y)),
                pair8(x.clone().min(y)),
            ])
        }
        "convert" => {
            use std::ops::{Bound, RangeBounds};
            let x = Range::<u8>::from(u(a[0]) as u8..u(a[1]) as u8);
            let end = |b: Bound<&u8>| match b {
                Bound::Included(n) => json!(["in", n]),
                Bound::Excluded(n) => json!(["ex", n]),
                Bound::Unbounded => json!(["un", 0]),
            };
            let (s, t) = (x.into_range(), std::ops::Range::<u8>::from(x));
            json!([pair8(x), [s.start, s.end], [t.start, t.end], end(x.start_bound()), end(x.end_bound()), codes(&x.to_string())])
        }
        "slice" => {
            let r = Range::new(u(a[0]) as usize, u(a[1]) as usize);
            let mut given = *b"abcdef";
            given[r].reverse();
            json!([codes(std::str::from_utf8(&b"abcdef"[..][r]).unwrap()), codes(std::str::from_utf8(&given).unwrap())])
        }
        "span_as" => {
            use std::ops::{Bound, RangeBounds};
            let s = SourceSpan::from_range_unchecked(SourceId::file(2), u(a[0]) as usize..u(a[1]) as usize);
            let m = litcheck::diagnostics::miette::SourceSpan::from(s);
            let (r, t) = (std::ops::Range::<u32>::from(s), std::ops::Range::<usize>::from(s));
            let (p, q) = (Range::<u32>::from(s), Range::<usize>::from(s));
            let bounds = match (s.start_bound(), s.end_bound()) {
                (Bound::Included(x), Bound::Excluded(y)) => json!([x.to_u32(), y.to_u32()]),
                _ => json!("other"),
            };
            json!([
                [m.offset(), m.len()], [r.start, r.end], [t.start, t.end], [p.start, p.end], [q.start, q.end], bounds,
                [s.into_range().start, s.into_range().end], [s.into_slice_index().start, s.into_slice_index().end], s.len(),
            ])
        }
        // spans that carry a value are compared by it, and hash alike
        "spanned" => {
            use std::hash::{DefaultHasher, Hash, Hasher};
            let put = |i: usize| Span::new(SourceSpan::at(SourceId::file(1), u(a[i]) as u32), u(a[i + 1]));
            let hash = |s: &Span<u64>| {
                let mut h = DefaultHasher::new();
                s.hash(&mut h);
                h.finish()
            };
            let (x, y) = (put(0), put(2));
            let z = y.map(|v| v + 1);
            json!([
                x == y, x.cmp(&y) as i8, opt(x.partial_cmp(&y).map(|o| o as i8)), x == *y.inner(), x != y || hash(&x) == hash(&y),
                [u64::from(z.span().start().to_u32()), *z, z.into_inner()], *x.as_ref().into_inner(), x.to_string() == u(a[1]).to_string(),
            ])
        }
        // from one line to another
        "lines" => {
            let s = Selection::from(LineIndex(u(a[0]) as u32)..LineIndex(u(a[1]) as u32));
            let t = Selection::from(Position::from(LineIndex(u(a[0]) as u32))..Position::from(LineIndex(u(a[1]) as u32)));
            json!([s.start.line.to_u32(), s.start.character.to_u32(), s.end.line.to_u32(), s.end.character.to_u32(), s == t])
        }
        // signed steps of indices and numbers, and those of operators
        "step" => {
            const MAX: u64 = u32::MAX as u64;
            let at = top(a[0], MAX) as u32;
            let k = a[1].as_i64().unwrap() as i32;
            let v = |n: u32| put(n as u64, MAX);
            macro_rules! tried {
                ($e:expr) => {
                    catch_unwind(AssertUnwindSafe(|| v($e.to_u32()))).map_or(json!([]), |x| json!([x]))
                };
            }
            let offset = ByteOffset::from_str_len(&"x".repeat(k.unsigned_abs() as usize));
            let (i, c, b) = (LineIndex(at), ColumnIndex(at), ByteIndex(at));
            let up = k.unsigned_abs();
            let indices = if k < 0 {
                json!([
                    tried!((i - up)), tried!((c - up)), tried!((b - up)), tried!((b - offset)),
                    tried!({ let mut i = i; i -= up; i }), tried!({ let mut b = b; b -= up; b }), tried!({ let mut b = b; b -= offset; b }),
                ])
            } else {
                json!([
                    tried!((i + up)), tried!((c + up)), tried!((b + up)), tried!((b + offset)),
                    tried!({ let mut i = i; i += up; i }), tried!({ let mut b = b; b += up; b }), tried!({ let mut b = b; b += offset; b }),
                ])
            };
            let signed = json!([
                opt(i.checked_add_signed(k).map(|x| v(x.to_u32()))), v(i.saturating_add_signed(k).to_u32()), tried!((i + k)),
                tried!({ let mut c = c; c += k; c }),
            ]);
            // a number of a line is one more than its index
            let numbers = LineNumber::new(at).map_or(json!([]), |n| {
                let m = ColumnNumber::new(at).unwrap();
                let plain = if k < 0 {
                    json!([
                        tried!((n - up)), tried!({ let mut m = m; m -= up; m }),
                        opt(n.checked_sub(up).map(|x| v(x.to_u32()))), v(m.saturating_sub(up).to_u32()),
                    ])
                } else {
                    json!([
                        tried!((n + up)), tried!({ let mut m = m; m += up; m }),
                        opt(n.checked_add(up).map(|x| v(x.to_u32()))), v(m.saturating_add(up).to_u32()),
                    ])
                };
                json!([[
                    opt(n.checked_add_signed(k).map(|x| v(x.to_u32()))), v(n.saturating_add_signed(k).to_u32()), tried!((n + k)),
                    tried!({ let mut m = m; m += k; m }), plain,
                    tried!({ let mut f = FileLineCol::new(FileName::Virtual("f".into()), LineNumber::default(), m); f.move_column(k); f.column }),
                    v(n.to_index().to_u32()),
                ]])
            });
            json!([indices, signed, numbers])
        }
        // index arithmetic: checked ones give nothing, saturating ones stay inside
        "index" => {
            const MAX: u64 = u32::MAX as u64;
            let i = LineIndex(top(a[0], MAX) as u32);
            let n = i.checked_add(1).map(|_| i.number());
            let d = top(a[1], MAX) as u32;
            let out = |x: Option<LineIndex>| opt(x.map(|x| put(x.to_u32() as u64, MAX)));
            json!([
                out(i.checked_add(d)),
                out(i.checked_sub(d)),
                put(i.saturating_add(d).to_u32() as u64, MAX),
                put(i.saturating_sub(d).to_u32() as u64, MAX),
                opt(n.map(|n| put(n.to_u32() as u64, MAX))),
                n.is_none_or(|n| n.to_index() == i && LineIndex::from(n) == i),
                opt(n.and_then(|n| n.checked_sub(d)).map(|x| put(x.to_u32() as u64, MAX))),
                opt(n.map(|n| put(n.saturating_sub(d).to_u32() as u64, MAX))),
            ])
        }
        other => panic!("{other}"),
    });
    json!({"v": v})
}

// ------------------------------------------------------------------ symbols
use litcheck::{Symbol, symbols};

fn ask(op: &Value) -> Symbol {
    let text = op[1].as_str().unwrap().to_string();
    match op[0].as_str().unwrap() {
        "intern" => Symbol::intern(&text),
        "string" => Symbol::from(text),
        "static" => Symbol::from(&*text.leak()),
        "box" => Symbol::from(text.into_boxed_str()),
        "borrowed" => Symbol::from(std::borrow::Cow::Borrowed(&*text.leak())),
        "owned" => Symbol::from(std::borrow::Cow::<'static, str>::Owned(text)),
        "serde" => serde_json::from_value(json!(text)).unwrap(),
        other => panic!("{other}"),
    }
}

/// Texts made symbols, also by several threads at once, and what the symbols say afterwards.
pub fn symbol_case(c: &Value) -> Value {
    let given = [
        symbols::False, symbols::True, symbols::Empty, symbols::Line, symbols::Add, symbols::Div, symbols::Max,
        symbols::Min, symbols::Mul, symbols::Sub, symbols::Check, symbols::Com, symbols::Run,
    ];
    let mut all = given.to_vec();
    let mut kept: Vec<&'static str> = given.iter().map(|s| s.as_str()).collect();
    for op in c["ops"].as_array().unwrap() {
        let s = ask(op);
        kept.push(s.as_str());
        all.push(s);
    }
    let threads = c["threads"].as_array().cloned().unwrap_or_default();
    let gate = std::sync::Barrier::new(threads.len().max(1));
    std::thread::scope(|sc| {
        let running: Vec<_> = threads
            .iter()
            .map(|ops| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    ops.as_array().unwrap().iter().map(ask).map(|s| (s, s.as_str())).collect::<Vec<_>>()
                })
            })
            .collect();
        for r in running {
            for (s, text) in r.join().unwrap() {
                all.push(s);
                kept.push(text);
            }
        }
    });
    let texts = |ts: &[&str]| ts.iter().map(|t| json!(t.as_bytes())).collect::<Vec<_>>();
    let said: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
    let by_hash: std::collections::HashMap<Symbol, usize> =
        all.iter().enumerate().rev().map(|(i, s)| (*s, i + 1)).collect();
    let by_order: std::collections::BTreeMap<Symbol, usize> =
        all.iter().enumerate().rev().map(|(i, s)| (*s, i + 1)).collect();
    let pairs: Vec<Value> = c["pairs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let (a, b) = (all[u(&p[0]) as usize - 1], all[u(&p[1]) as usize - 1]);
            json!([a == b, a.cmp(&b) as i8, a == b.as_str(), a.to_string() == b.to_string()])
        })
        .collect();
    let found: Vec<Value> = c["find"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            let t = t.as_str().unwrap();
            json!([by_hash.get(t).copied().unwrap_or(0), by_order.get(t).copied().unwrap_or(0)])
        })
        .collect();
    json!({
        "nums": all.iter().map(|s| json!([s.as_u32() >> 16, s.as_u32() & 0xffff])).collect::<Vec<_>>(),
        "texts": texts(&kept), "again": texts(&said),
        "keys": all.iter().map(|s| s.is_keyword()).collect::<Vec<_>>(),
        "pairs": pairs, "found": found,
    })
}

// ------------------------------------------------------------------ inputs
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|b| u(b) as u8).collect()
}

/// What inputs in a scratch directory stand for.
pub fn input_case(c: &Value) -> Value {
    use litcheck::Input;
    use std::os::unix::ffi::{OsStrExt, OsStringExt};
    let base = PathBuf::from(std::env::var_os("VH_SCRATCH").expect("scratch")).join(std::process::id().to_string());
    let _ = std::fs::remove_dir_all(&base);
    let place = |v: &Value| -> PathBuf {
        let mut p = base.clone();
        for n in v.as_array().unwrap() {
            p.push(std::ffi::OsString::from_vec(bytes(n)));
        }
        p
    };
    std::fs::create_dir_all(&base).unwrap();
    for d in c["dirs"].as_array().unwrap() {
        std::fs::create_dir_all(place(d)).unwrap();
    }
    for f in c["files"].as_array().unwrap() {
        let p = place(&f[0]);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, bytes(&f[1])).unwrap();
    }
    let names = |ps: Vec<PathBuf>| -> Value {
        ps.iter()
            .map(|p| match p.strip_prefix(&base) {
                Ok(r) => r.components().map(|c| json!(c.as_os_str().as_bytes())).collect::<Vec<_>>().into(),
                Err(_) => json!("elsewhere"),
            })
            .collect::<Vec<Value>>()
            .into()
    };
    let ans: Vec<Value> = c["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|op| {
            or_refused(|| {
                let at = place(&op[1]);
                let i = Input::from(at.clone());
                let listed = |r: Result<Vec<Input>, _>| match r {
                    Ok(v) => names(v.iter().map(|i| i.path().to_path_buf()).collect()),
                    Err(_) => json!("error"),
                };
                match op[0].as_str().unwrap() {
                    "glob" => listed(i.glob(std::str::from_utf8(&bytes(&op[2])).unwrap())),
                    "types" => listed(i.get_file_types(
                        &op[2].as_array().unwrap().iter().map(|t| String::from_utf8(bytes(t)).unwrap()).collect::<Vec<_>>(),
                    )),
                    "search" => {
                        let ends = bytes(&op[3]);
                        let found = litcheck::fs::search_directory(&at, op[2].as_bool().unwrap(), |e| {
                            e.file_name().as_bytes().ends_with(&ends)
                        });
                        match found.map(|e| e.map(|e| e.into_path())).collect::<Result<Vec<_>, _>>() {
                            Ok(v) => names(v),
                            Err(_) => json!("error"),
                        }
                    }
                    "read" => match i.read_to_string(op[2].as_bool().unwrap()) {
                        Ok(s) => json!({ "text": s.as_bytes() }),
                        Err(_) => json!("error"),
                    },
                    "load" => {
                        let m = DefaultSourceManager::default();
                        match i.into_source(op[2].as_bool().unwrap(), &m) {
                            Ok(f) => json!({ "text": f.as_str().as_bytes(), "named": f.uri().as_str() == at.to_str().unwrap() }),
                            Err(_) => json!("error"),
                        }
                    }
                    "is" => json!([i.exists(), i.is_file(), i.is_directory()]),
                    "fits" => {
                        let set: litcheck::fs::PatternSet = op[2]
                            .as_array()
                            .unwrap()
                            .iter()
                            .map(|t| std::str::from_utf8(&bytes(t)).unwrap().parse::<litcheck::fs::Pattern>().unwrap())
                            .collect();
                        let t = String::from_utf8(bytes(&op[3])).unwrap();
                        json!([set.matches(&t), set.matches_path(Path::new(&t)), set.is_empty(), set.iter().count()])
                    }
                    other => panic!("{other}"),
                }
            })
        })
        .collect();
    let _ = std::fs::remove_dir_all(&base);
    json!({ "ans": ans })
}
