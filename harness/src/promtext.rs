//! An independent, strict parser of the Prometheus text exposition format, version 0.0.4.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone)]
pub struct Sample {
    pub name: String,
    pub labels: BTreeMap<String, String>,
    /// Label names in the order in which they appear.
    pub order: Vec<String>,
    pub value: f64,
    pub ts: Option<i64>,
}
#[derive(Debug, Clone)]
pub struct Family {
    pub name: String,
    pub kind: String,
    pub help: Option<String>,
    pub samples: Vec<Sample>,
}

pub fn valid_metric_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty()
        && (b[0].is_ascii_alphabetic() || b[0] == b'_' || b[0] == b':')
        && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b':')
}
pub fn valid_label_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && (b[0].is_ascii_alphabetic() || b[0] == b'_') && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}
/// `NaN`, `+Inf`, `-Inf` or a decimal number.
pub fn number(s: &str) -> Result<f64, String> {
    match s {
        "NaN" => return Ok(f64::NAN),
        "+Inf" => return Ok(f64::INFINITY),
        "-Inf" => return Ok(f64::NEG_INFINITY),
        _ => {}
    }
    let bad = || format!("not a number of the format: {:?}", s);
    let (m, e) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let digits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
    let sign = |s: &'_ str| -> String { s.strip_prefix(['+', '-']).unwrap_or(s).to_string() };
    let m = sign(m);
    let ok = match m.find('.') {
        Some(i) => digits(&m[..i]) && digits(&m[i + 1..]),
        None => digits(&m),
    };
    if !ok || e.map_or(false, |e| !digits(&sign(e))) {
        return Err(bad());
    }
    s.parse::<f64>().map_err(|_| bad())
}

struct P<'a> {
    s: &'a str,
    i: usize,
}
impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.i += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn blanks(&mut self) -> usize {
        let n = self.i;
        while self.eat(' ') || self.eat('\t') {}
        self.i - n
    }
    fn word(&mut self, f: impl Fn(char) -> bool) -> &'a str {
        let r = self.rest();
        let n = r.find(|c| !f(c)).unwrap_or(r.len());
        self.i += n;
        &r[..n]
    }
}

fn unescape_help(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('\\') => out.push('\\'),
                Some('n') => out.push('\n'),
                o => return Err(format!("escape {:?} is not allowed in help {:?}", o, s)),
            }
        } else {
            out.push(c);
        }
    }
    Ok(out)
}

pub fn sample(line: &str) -> Result<Sample, String> {
    let fail = |m: &str| format!("{} in sample line {:?}", m, line);
    let mut p = P { s: line, i: 0 };
    let name = p.word(|c| c.is_ascii_alphanumeric() || c == '_' || c == ':').to_string();
    if !valid_metric_name(&name) {
        return Err(fail("bad metric name"));
    }
    let mut labels = BTreeMap::new();
    let mut order = vec![];
    if p.eat('{') {
        let mut first = true;
        loop {
            p.blanks();
            if first && p.eat('}') {
                break;
            }
            first = false;
            let l = p.word(|c| c.is_ascii_alphanumeric() || c == '_').to_string();
            if !valid_label_name(&l) {
                return Err(fail("bad label name"));
            }
            p.blanks();
            if !p.eat('=') {
                return Err(fail("no '=' after label name"));
            }
            p.blanks();
            if !p.eat('"') {
                return Err(fail("label value not quoted"));
            }
            let mut v = String::new();
            loop {
                let Some(c) = p.peek() else { return Err(fail("label value not closed")) };
                p.i += c.len_utf8();
                match c {
                    '"' => break,
                    '\\' => {
                        let e = p.peek();
                        match e {
                            Some('\\') => v.push('\\'),
                            Some('"') => v.push('"'),
                            Some('n') => v.push('\n'),
                            _ => return Err(fail("escape not allowed")),
                        }
                        p.i += 1;
                    }
                    c => v.push(c),
                }
            }
            order.push(l.clone());
            if labels.insert(l, v).is_some() {
                return Err(fail("label given twice"));
            }
            p.blanks();
            if p.eat(',') {
                continue;
            }
            if p.eat('}') {
                break;
            }
            return Err(fail("no ',' or '}' after label value"));
        }
        p.blanks();
    } else if p.blanks() == 0 {
        return Err(fail("no blank after name"));
    }
    let v = p.word(|c| c != ' ' && c != '\t');
    let value = number(v).map_err(|e| fail(&e))?;
    let mut ts = None;
    if p.blanks() > 0 && !p.rest().is_empty() {
        let t = p.word(|c| c != ' ' && c != '\t');
        let digits = t.strip_prefix('-').unwrap_or(t);
        if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
            return Err(fail("bad timestamp"));
        }
        ts = Some(t.parse::<i64>().map_err(|_| fail("timestamp out of range"))?);
        p.blanks();
    }
    if !p.rest().is_empty() {
        return Err(fail("trailing text"));
    }
    Ok(Sample { name, labels, order, value, ts })
}

/// Parses a whole exposition and checks its structure.
pub fn parse(text: &str) -> Result<Vec<Family>, String> {
    if text.is_empty() {
        return Ok(vec![]);
    }
    if !text.ends_with('\n') {
        return Err("the last line does not end with a line feed".into());
    }
    let mut out: Vec<Family> = vec![];
    let mut help: Option<(String, String)> = None;
    for line in text[..text.len() - 1].split('\n') {
        if let Some(r) = line.strip_prefix("# HELP ") {
            if help.is_some() {
                return Err(format!("HELP not followed by TYPE, before {:?}", line));
            }
            let (n, h) = r.split_once(' ').unwrap_or((r, ""));
            if !valid_metric_name(n) {
                return Err(format!("bad name in {:?}", line));
            }
            help = Some((n.to_string(), unescape_help(h)?));
        } else if let Some(r) = line.strip_prefix("# TYPE ") {
            let (n, k) = r.split_once(' ').ok_or_else(|| format!("no kind in {:?}", line))?;
            if !valid_metric_name(n) || !["counter", "gauge", "histogram", "summary"].contains(&k) {
                return Err(format!("bad TYPE line {:?}", line));
            }
            let h = match help.take() {
                Some((hn, _)) if hn != n => return Err(format!("HELP of {:?} before {:?}", hn, line)),
                h => h.map(|h| h.1),
            };
            if out.last().map_or(false, |f| f.samples.is_empty()) {
                return Err(format!("family without samples before {:?}", line));
            }
            out.push(Family { name: n.to_string(), kind: k.to_string(), help: h, samples: vec![] });
        } else if line.starts_with('#') || line.is_empty() {
            return Err(format!("unexpected line {:?}", line));
        } else {
            if help.is_some() {
                return Err(format!("HELP not followed by TYPE, before {:?}", line));
            }
            let s = sample(line)?;
            let f = out.last_mut().ok_or_else(|| format!("sample before any TYPE line: {:?}", line))?;
            let suffix = s.name.strip_prefix(f.name.as_str());
            let ok = match f.kind.as_str() {
                "histogram" => matches!(suffix, Some("_bucket") | Some("_sum") | Some("_count")),
                "summary" => matches!(suffix, Some("") | Some("_sum") | Some("_count")),
                _ => suffix == Some(""),
            };
            if !ok {
                return Err(format!("sample {:?} does not belong to the {} {:?} it follows", line, f.kind, f.name));
            }
            f.samples.push(s);
        }
    }
    if help.is_some() || out.last().map_or(false, |f| f.samples.is_empty()) {
        return Err("the text ends within a family".into());
    }
    Ok(out)
}

/// One series of a family, put together from its samples.
#[derive(Debug, Clone)]
pub struct Series {
    pub labels: BTreeMap<String, String>,
    /// Order of the metric's own labels.
    pub order: Vec<String>,
    pub ts: Option<i64>,
    pub val: Val,
}
#[derive(Debug, Clone)]
pub enum Val {
    Scalar(f64),
    /// (bound, cumulative count), sum, count
    Hist(Vec<(f64, f64)>, f64, f64),
    /// (quantile, value), sum, count
    Summary(Vec<(f64, f64)>, f64, f64),
}

/// Groups the samples of a family into series; the samples of one series must be contiguous, complete and in order.
pub fn series(f: &Family) -> Result<Vec<Series>, String> {
    let mut out: Vec<Series> = vec![];
    let extra = match f.kind.as_str() {
        "histogram" => "le",
        "summary" => "quantile",
        _ => "",
    };
    if extra.is_empty() {
        for s in &f.samples {
            out.push(Series { labels: s.labels.clone(), order: s.order.clone(), ts: s.ts, val: Val::Scalar(s.value) });
        }
    } else {
        let hist = extra == "le";
        let part = format!("{}{}", f.name, if hist { "_bucket" } else { "" });
        let (sum_name, count_name) = (format!("{}_sum", f.name), format!("{}_count", f.name));
        let mut i = 0;
        while i < f.samples.len() {
            let mut own = f.samples[i].labels.clone();
            if f.samples[i].name == part {
                own.remove(extra);
            }
            let order: Vec<String> = f.samples[i].order.iter().filter(|l| own.contains_key(*l)).cloned().collect();
            let ts = f.samples[i].ts;
            let (mut parts, mut sum, mut count): (Vec<(f64, f64)>, _, _) = (vec![], None, None);
            while i < f.samples.len() && (sum.is_none() || count.is_none()) {
                let s = &f.samples[i];
                let mut l = s.labels.clone();
                let at = || format!("family {:?}, series {:?}: sample {:?}", f.name, own, s);
                if s.ts != ts {
                    return Err(format!("{} has another timestamp", at()));
                }
                if s.name == part && sum.is_none() && count.is_none() {
                    let b = l.remove(extra).ok_or_else(|| format!("{} has no {} label", at(), extra))?;
                    let b = number(&b)?;
                    if parts.last().map_or(false, |p| !(p.0 < b)) {
                        return Err(format!("{} is not above the one before", at()));
                    }
                    parts.push((b, s.value));
                } else if s.name == sum_name && sum.is_none() {
                    sum = Some(s.value);
                } else if s.name == count_name && count.is_none() {
                    count = Some(s.value);
                } else {
                    return Err(format!("{} is out of place", at()));
                }
                if l != own {
                    return Err(format!("{} has other labels", at()));
                }
                let o: Vec<&String> = s.order.iter().filter(|l| own.contains_key(*l)).collect();
                if o != order.iter().collect::<Vec<_>>() {
                    return Err(format!("{} has its labels in another order", at()));
                }
                i += 1;
            }
            let (Some(sum), Some(count)) = (sum, count) else { return Err(format!("series {:?} of {:?} is incomplete", own, f.name)) };
            if hist && parts.last().map_or(true, |p| p.0 != f64::INFINITY) {
                return Err(format!("series {:?} of {:?} has no +Inf bucket", own, f.name));
            }
            let val = if hist { Val::Hist(parts, sum, count) } else { Val::Summary(parts, sum, count) };
            out.push(Series { labels: own, order, ts, val });
        }
    }
    let mut seen = BTreeSet::new();
    for s in &out {
        if !seen.insert(s.labels.clone()) {
            return Err(format!("series {:?} of {} {:?} appears twice", s.labels, f.kind, f.name));
        }
    }
    Ok(out)
}
