//! Small uses of the standard library and of regex, interpreted by the analyser and run natively: see run.py.
#![allow(dead_code, unused)]
use std::borrow::Cow;
use std::cmp::{max, min, Ordering, Reverse};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::fmt::Write;
use std::iter::{self, FromIterator, Peekable};
use std::str::FromStr;
use regex::Regex;
use std::fmt;

pub trait Show { fn show(&self) -> String; }
impl Show for bool { fn show(&self) -> String { if *self { "true".to_string() } else { "false".to_string() } } }
impl Show for i32 { fn show(&self) -> String { self.to_string() } }
impl Show for i64 { fn show(&self) -> String { self.to_string() } }
impl Show for u8 { fn show(&self) -> String { self.to_string() } }
impl Show for u16 { fn show(&self) -> String { self.to_string() } }
impl Show for u32 { fn show(&self) -> String { self.to_string() } }
impl Show for usize { fn show(&self) -> String { self.to_string() } }
impl Show for char { fn show(&self) -> String { self.to_string() } }
impl Show for str { fn show(&self) -> String { self.to_string() } }
impl Show for String { fn show(&self) -> String { self.clone() } }
impl Show for () { fn show(&self) -> String { "()".to_string() } }
impl<'a, T: Show + ?Sized> Show for &'a T { fn show(&self) -> String { (**self).show() } }
impl<T: Show + ?Sized> Show for Box<T> { fn show(&self) -> String { (**self).show() } }
impl<'a> Show for Cow<'a, str> { fn show(&self) -> String { self.to_string() } }
impl<T: Show> Show for Option<T> { fn show(&self) -> String { match self { Some(x) => format!("S({})", x.show()), None => "N".to_string() } } }
impl<T: Show, E> Show for Result<T, E> { fn show(&self) -> String { match self { Ok(x) => format!("O({})", x.show()), Err(_) => "E".to_string() } } }
impl<T: Show> Show for Vec<T> { fn show(&self) -> String { let mut r = String::from("["); for x in self { r.push_str(&x.show()); r.push(';'); } r + "]" } }
impl<T: Show> Show for [T] { fn show(&self) -> String { let mut r = String::from("["); for x in self { r.push_str(&x.show()); r.push(';'); } r + "]" } }
impl<A: Show, B: Show> Show for (A, B) { fn show(&self) -> String { format!("({}/{})", self.0.show(), self.1.show()) } }
impl<A: Show, B: Show, C: Show> Show for (A, B, C) { fn show(&self) -> String { format!("({}/{}/{})", self.0.show(), self.1.show(), self.2.show()) } }
impl Show for Ordering { fn show(&self) -> String { match self { Ordering::Less => "<".into(), Ordering::Equal => "=".into(), Ordering::Greater => ">".into() } } }

// every case: name(arguments) body
macro_rules! one {
    ($n:ident ($($a:ident : $t:ty),*) $e:expr) => { pub fn $n($($a: $t),*) -> String { ($e).show() } };
}
macro_rules! cases {
    ($f:ident $args:tt $ty:ty; $($n:ident: $e:expr;)*) => {
        pub mod $f {
            use super::*;
            $(one!{$n $args $e})*
            #[cfg(test)]
            pub fn lv_all() -> Vec<(&'static str, $ty)> { vec![$((stringify!($n), $n as $ty)),*] }
        }
    };
}

cases!(text (s: &str) fn(&str) -> String;
    len: s.len();
    is_empty: s.is_empty();
    not_empty: !s.is_empty();
    trim: s.trim();
    trim_start: s.trim_start();
    trim_end: s.trim_end();
    trim_dots: s.trim_matches('.');
    trim_set: s.trim_matches(|c| c == '.' || c == '-');
    trim_start_zero: s.trim_start_matches('0');
    trim_end_star: s.trim_end_matches('*');
    trim_end_str: s.trim_end_matches(".*");
    trim_start_str: s.trim_start_matches("==");
    trim_arr: s.trim_matches(&['.', '-'][..]);
    starts: s.starts_with('1');
    starts_s: s.starts_with("1.");
    starts_f: s.starts_with(|c: char| c.is_ascii_digit());
    starts_digit: s.starts_with(char::is_numeric);
    starts_arr: s.starts_with(&['1', '2'][..]);
    ends: s.ends_with('*');
    ends_s: s.ends_with(".*");
    contains_c: s.contains('.');
    contains_s: s.contains("..");
    contains_f: s.contains(|c| c == '(' || c == '|');
    contains_arr: s.contains(&['(', ')', '|', ','][..]);
    find_c: s.find('.');
    find_s: s.find("..");
    rfind_c: s.rfind('.');
    find_f: s.find(|c: char| !c.is_ascii_digit());
    lower: s.to_lowercase();
    upper: s.to_uppercase();
    alower: s.to_ascii_lowercase();
    aupper: s.to_ascii_uppercase();
    eq_ic: s.eq_ignore_ascii_case("1.DEV");
    eq_lit: s == "1.2";
    ne_lit: s != "1.2";
    cmp_lit: s.cmp("1.2");
    lt_lit: s < "1.2";
    replace: s.replace(".", "-");
    replace_c: s.replace('.', "");
    replacen: s.replacen(".", "-", 1);
    repeat: s.repeat(2);
    repeat0: s.repeat(0);
    split: s.split('.').collect::<Vec<_>>();
    split_s: s.split(".").collect::<Vec<&str>>();
    split_f: s.split(|c| c == '.' || c == '-').collect::<Vec<&str>>();
    split_arr: s.split(&['.', '-'][..]).collect::<Vec<&str>>();
    split_filter: s.split('.').filter(|p| !p.is_empty()).collect::<Vec<_>>();
    split_count: s.split('.').count();
    split_last: s.split('.').last();
    split_next: s.split('.').next();
    split_nth: s.split('.').nth(1);
    split_map: s.split('.').map(|p| p.len()).collect::<Vec<_>>();
    split_skip: s.split('.').skip(1).collect::<Vec<_>>();
    split_take: s.split('.').take(1).collect::<Vec<_>>();
    split_rev: s.split('.').rev().collect::<Vec<_>>();
    split_join: s.split('.').collect::<Vec<_>>().join("/");
    split_any: s.split('.').any(|p| p == "2");
    split_all: s.split('.').all(|p| !p.is_empty());
    split_position: s.split('.').position(|p| p.is_empty());
    split_find: s.split('.').find(|p| p.len() > 1);
    split_fold: s.split('.').fold(String::new(), |a, p| a + p);
    split_enum: s.split('.').enumerate().map(|(i, p)| format!("{}{}", i, p)).collect::<Vec<_>>();
    split_flat: s.split('.').flat_map(|p| p.split('-')).collect::<Vec<_>>();
    split_peek: { let mut it = s.split('.').peekable(); let mut n = 0; while let Some(p) = it.next() { if it.peek().is_none() { n += p.len() } } n };
    split_parse: s.split('.').map(|p| p.parse::<i32>()).collect::<Result<Vec<_>, _>>();
    split_parse_opt: s.split('.').map(|p| p.parse::<i32>().ok()).collect::<Option<Vec<_>>>();
    split_filter_map: s.split('.').filter_map(|p| p.parse::<i32>().ok()).collect::<Vec<_>>();
    split_zip: s.split('.').zip(0..).map(|(p, i)| (p, i as usize)).collect::<Vec<_>>();
    split_while: s.split('.').take_while(|p| !p.is_empty()).collect::<Vec<_>>();
    split_skip_while: s.split('.').skip_while(|p| p.is_empty()).collect::<Vec<_>>();
    split_chain: s.split('.').chain(iter::once("x")).collect::<Vec<_>>();
    split_last_len: s.split('.').map(str::len).max();
    split_sum: s.split('.').map(|p| p.len()).sum::<usize>();
    split_min: s.split('.').map(|p| p.len()).min();
    split_try: { let mut out = Vec::new(); for p in s.split('.') { match p.parse::<u16>() { Ok(n) => out.push(n), Err(_) => break } } out };
    split_cloned: { let v: Vec<&str> = s.split('.').collect(); v.iter().cloned().map(String::from).collect::<Vec<String>>() };
    split_windows: { let v: Vec<&str> = s.split('.').collect(); v.windows(2).all(|w| w[0] <= w[1]) };
    split_first: { let v: Vec<&str> = s.split('.').collect(); (v.first().map(|x| x.len()), v.last().map(|x| x.len())) };
    split_match: { let v: Vec<&str> = s.split('.').collect(); match v.as_slice() { [] => 0, [_] => 1, [a, b] => a.len() + b.len(), [a, .., z] => 100 + a.len() + z.len() } };
    split_into: { let v: Vec<&str> = s.split('.').collect(); v.into_iter().map(|x| x.to_owned()).collect::<Vec<_>>() };
    split_retain: { let mut v: Vec<&str> = s.split('.').collect(); v.retain(|x| !x.is_empty()); v };
    split_dedup: { let mut v: Vec<&str> = s.split('.').collect(); v.dedup(); v };
    split_pop: { let mut v: Vec<&str> = s.split('.').collect(); let x = v.pop(); (x, v) };
    split_drain: { let mut v: Vec<&str> = s.split('.').collect(); let x: Vec<&str> = v.drain(..1).collect(); (x, v) };
    split_insert: { let mut v: Vec<&str> = s.split('.').collect(); v.insert(0, "z"); v };
    split_truncate: { let mut v: Vec<&str> = s.split('.').collect(); v.truncate(1); v };
    split_extend: { let mut v: Vec<&str> = s.split('.').collect(); v.extend(vec!["q", "r"]); v };
    split_get: { let v: Vec<&str> = s.split('.').collect(); (v.get(0).copied(), v.get(5).copied()) };
    split_contains: { let v: Vec<&str> = s.split('.').collect(); v.contains(&"2") };
    split_sort: { let mut v: Vec<&str> = s.split('.').collect(); v.sort(); v };
    split_reverse: { let mut v: Vec<&str> = s.split('.').collect(); v.reverse(); v };
    split_concat: { let v: Vec<&str> = s.split('.').collect(); v.concat() };
    split_once: s.split_once('.');
    split_once_s: s.split_once("..");
    rsplit_once: s.rsplit_once('.');
    splitn: s.splitn(2, '.').collect::<Vec<_>>();
    rsplitn: s.rsplitn(2, '.').collect::<Vec<_>>();
    rsplit: s.rsplit('.').collect::<Vec<_>>();
    split_term: s.split_terminator('.').collect::<Vec<_>>();
    split_incl: s.split_inclusive('.').collect::<Vec<_>>();
    split_ws: s.split_whitespace().collect::<Vec<_>>();
    split_at: if s.is_char_boundary(1) && !s.is_empty() { s.split_at(1) } else { ("", s) };
    lines: s.lines().collect::<Vec<_>>();
    strip_prefix: s.strip_prefix("==");
    strip_prefix_c: s.strip_prefix('=');
    strip_suffix: s.strip_suffix(".*");
    strip_or: s.strip_suffix(".*").unwrap_or(s);
    chars_count: s.chars().count();
    chars_next: s.chars().next();
    chars_last: s.chars().last();
    chars_rev: s.chars().rev().collect::<String>();
    chars_collect: s.chars().collect::<String>();
    chars_filter: s.chars().filter(|c| c.is_ascii_digit()).collect::<String>();
    chars_filter_not: s.chars().filter(|c| *c != '.').collect::<String>();
    chars_all: s.chars().all(|c| c.is_ascii_digit());
    chars_any: s.chars().any(char::is_whitespace);
    chars_any2: s.chars().any(|c| c.is_alphabetic());
    chars_map: s.chars().map(|c| if c == '-' { '.' } else { c }).collect::<String>();
    chars_flat: s.chars().flat_map(|c| c.to_lowercase()).collect::<String>();
    chars_nth: s.chars().nth(1);
    chars_skip: s.chars().skip(1).collect::<String>();
    chars_take_while: s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>();
    chars_position: s.chars().position(|c| c == '.');
    chars_vec: s.chars().collect::<Vec<char>>();
    chars_peek: { let mut it = s.chars().peekable(); let mut o = String::new(); while let Some(&c) = it.peek() { if c == '.' { break; } o.push(c); it.next(); } o };
    chars_as_str: { let mut it = s.chars(); it.next(); it.as_str().to_string() };
    char_indices: s.char_indices().filter(|(_, c)| *c == '.').map(|(i, _)| i).collect::<Vec<_>>();
    char_indices_find: s.char_indices().find(|&(_, c)| c == '.').map(|(i, _)| &s[..i]);
    count_matches: s.matches('.').count();
    matches_s: s.matches("..").count();
    matches_vec: s.matches(char::is_numeric).collect::<Vec<_>>();
    match_indices: s.match_indices('.').map(|(i, _)| i).collect::<Vec<_>>();
    bytes_count: s.bytes().filter(|b| *b == b'.').count();
    bytes_all: s.bytes().all(|b| b.is_ascii_digit());
    bytes_any: s.bytes().any(|b| b == b'!');
    bytes_first: s.as_bytes().first().copied();
    bytes_first_eq: s.as_bytes().first() == Some(&b'1');
    bytes_get: s.as_bytes().get(1) == Some(&b'.');
    bytes_starts: s.as_bytes().starts_with(b"1.");
    get1: s.get(..1);
    get_from: s.get(1..);
    get_at: s.get(0..2).is_some();
    slice_from: if s.starts_with('=') { &s[1..] } else { s };
    slice_to_find: match s.find('.') { Some(i) => &s[..i], None => s };
    slice_after_find: match s.find('.') { Some(i) => &s[i + 1..], None => "" };
    slice_rfind: match s.rfind('.') { Some(i) => (&s[..i], &s[i + 1..]), None => ("", s) };
    slice_incl_rfind: &s[..s.rfind(|c| c != '*' && c != '.').map_or(0, |i| i + 1)];
    slice_incl_find: &s[..s.find(|c| c == '*' || c == '.').map_or(0, |i| i + 1)];
    slice_incl_find_c: &s[..s.find('.').map_or(0, |i| i + 1)];
    slice_from_find: &s[s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len())..];
    slice_from_rfind: &s[s.rfind('.').unwrap_or(0)..];
    slice_past_rfind_not: &s[s.rfind(|c: char| !c.is_alphanumeric()).map_or(0, |i| i + 1)..];
    slice_past_find_not: &s[s.find(|c: char| !c.is_ascii_digit()).map_or(0, |i| i + 1)..];
    slice_len2: if s.ends_with(".*") { &s[..s.len() - 2] } else { s };
    parse_i32: s.parse::<i32>();
    parse_u16: s.parse::<u16>().ok();
    parse_i16: s.parse::<i16>().is_ok();
    parse_u64: s.parse::<u64>().is_err();
    parse_or: s.parse::<i32>().unwrap_or(-1);
    parse_map: s.parse::<i32>().map(|n| n > 5).unwrap_or(false);
    from_str: i32::from_str(s).is_ok();
    parse_cmp: match s.parse::<i32>() { Ok(n) if n > 100 => 2, Ok(n) if n < 10 => 0, Ok(_) => 1, Err(_) => 3 };
    parse_bool: s.parse::<bool>().is_ok();
    push_str: { let mut o = String::new(); o.push_str(s); o.push('!'); o };
    plus: String::from("a") + s + "b";
    plus_assign: { let mut o = s.to_string(); o += "x"; o };
    insert: { let mut o = s.to_string(); o.insert(0, '('); o.insert_str(0, "ab"); o };
    pop: { let mut o = s.to_string(); let c = o.pop(); (c, o) };
    truncate: { let mut o = s.to_string(); if o.len() > 1 && o.is_char_boundary(1) { o.truncate(1); } o };
    clear: { let mut o = s.to_string(); o.clear(); o.is_empty() };
    retain: { let mut o = s.to_string(); o.retain(|c| c != '.'); o };
    remove: { let mut o = s.to_string(); if !o.is_empty() { o.remove(0); } o };
    make_lower: { let mut o = s.to_string(); o.make_ascii_lowercase(); o };
    format1: format!("({})", s);
    format2: format!("{}-{}", s, s.len());
    format_named: { let x = s; format!("<{x}>") };
    format_pad: format!("{:>3}", s).len() >= s.len();
    write_fmt: { let mut o = String::new(); write!(o, "{}.", s).unwrap(); write!(&mut o, "{}", 3).unwrap(); o };
    concat_arr: [s, "+", s].concat();
    join_arr: [s, s].join(",");
    to_owned: s.to_owned();
    into_string: { let o: String = s.into(); o };
    into_box: { let o: Box<str> = s.into(); o };
    cow: { let c: Cow<str> = if s.contains('.') { Cow::Owned(s.replace(".", "")) } else { Cow::Borrowed(s) }; c.into_owned() };
    cow2: String::from_utf8_lossy(s.as_bytes()).to_string();
    utf8: std::str::from_utf8(s.as_bytes()).is_ok();
    as_ref: { let r: &str = s.as_ref(); r };
    match_lit: match s { "==" | "=" => 1, "!=" => 2, _ if s.is_empty() => 3, _ => 4 };
    match_trim: match s.trim() { "" => "none", "1" => "one", other => other };
    match_opt: match s.chars().next() { Some('=') => 1, Some('0'..='9') => 2, Some(c) if c.is_alphabetic() => 3, Some(_) => 4, None => 5 };
    match_two: match (s.starts_with('^'), s.ends_with('$')) { (true, true) => 1, (false, false) => 2, _ => 3 };
    matches_mac: matches!(s, "1" | "2");
    matches_chr: s.chars().all(|c| matches!(c, '0'..='9' | '.'));
    is_ascii: s.is_ascii();
    max_s: max(s, "1");
    ord_min: min(s.len(), 3);
    partial_cmp: s.partial_cmp("2");
    then: s.len().cmp(&3).then(s.cmp("x"));
    then_with: s.len().cmp(&3).then_with(|| "x".cmp(s));
    reverse: s.cmp("2").reverse();
    is_lt: s.cmp("2").is_lt();
    option_map: s.find('.').map(|i| i + 1).unwrap_or(0);
    option_map_or: s.find('.').map_or(s, |i| &s[..i]);
    option_and_then: s.find('.').and_then(|i| s[i + 1..].find('.'));
    option_filter: s.find('.').filter(|i| *i > 1).is_some();
    option_or: s.find('!').or(s.find('+')).is_none();
    option_or_else: s.find('!').or_else(|| s.find('+'));
    option_ok_or: s.find('!').ok_or("no").is_err();
    option_zip: s.find('.').zip(s.rfind('.'));
    option_xor: s.find('.').xor(s.find('-')).is_some();
    option_take: { let mut o = s.find('.'); let t = o.take(); (t, o) };
    option_replace: { let mut o = Some(s); let t = o.replace("z"); (t, o) };
    option_get_or: { let mut o = s.find('.'); *o.get_or_insert(9) += 1; o };
    option_iter: s.find('.').into_iter().count();
    option_eq: s.find('.') == Some(1);
    option_cmp: s.find('.').cmp(&s.find('-'));
    option_is_some_and: s.find('.').map_or(false, |i| i == 1);
    option_unwrap_default: s.find('.').unwrap_or_default();
    option_copied: s.split('.').collect::<Vec<_>>().first().copied();
    option_transpose: s.strip_prefix("=").map(|x| x.parse::<i32>()).transpose();
    option_flatten: Some(s.find('.')).flatten();
    option_as_ref: { let o: Option<String> = Some(s.to_string()); (o.as_ref().map(|x| x.len()), o.as_deref().is_some()) };
    option_q: (|| -> Option<usize> { let i = s.find('.')?; let j = s[i + 1..].find('.')?; Some(i + j) })();
    result_q: (|| -> Result<i32, String> { let a: i32 = s.parse().map_err(|_| "bad".to_string())?; if a > 3 { return Err("big".into()); } Ok(a + 1) })();
    result_and_then: s.parse::<i32>().map_err(|_| ()).and_then(|n| if n > 0 { Ok(n) } else { Err(()) });
    result_or: s.parse::<i32>().or_else(|_| s.trim().parse::<i32>()).is_ok();
    result_ok: s.parse::<i32>().ok().is_some();
    result_map_or: s.parse::<i32>().map_or(0, |n| n % 10);
    result_unwrap_or_else: s.parse::<i32>().unwrap_or_else(|_| s.len() as i32);
    loop_bytes: { let b = s.as_bytes(); let mut i = 0; while i < b.len() && b[i].is_ascii_digit() { i += 1; } i };
    loop_depth: { let mut d = 0i32; let mut ok = true; for c in s.chars() { match c { '(' => d += 1, ')' => { d -= 1; if d < 0 { ok = false; break; } } _ => {} } } ok && d == 0 };
    state: { let mut cur = String::new(); let mut out = Vec::new(); for c in s.chars() { if c == '.' { out.push(cur.clone()); cur.clear(); } else { cur.push(c); } } out.push(cur); out };
    runs: { let mut out: Vec<String> = Vec::new(); let mut digit = false; for c in s.chars() { let d = c.is_ascii_digit(); if out.is_empty() || d != digit { out.push(String::new()); } digit = d; out.last_mut().unwrap().push(c); } out };
    mem_take: { let mut a = s.to_string(); let b = std::mem::take(&mut a); (a, b) };
    mem_replace: { let mut a = s.to_string(); let b = std::mem::replace(&mut a, "q".to_string()); (a, b) };
    mem_swap: { let mut a = s.to_string(); let mut b = "w".to_string(); std::mem::swap(&mut a, &mut b); (a, b) };
    hashset: { let h: HashSet<char> = ['(', ')'].iter().cloned().collect(); s.chars().any(|c| h.contains(&c)) };
    hashset2: { let mut h = HashSet::new(); s.split('.').all(|p| h.insert(p)) };
    const_arr: { const OPS: [&str; 4] = ["==", "!=", "<=", "<"]; OPS.iter().find(|o| s.starts_with(**o)).map(|o| &s[o.len()..]) };
    const_arr2: { const OPS: &[(&str, i32)] = &[("==", 1), ("!=", 2), ("<", 3)]; OPS.iter().position(|(o, _)| *o == s) };
    const_arr3: { const OPS: &[(&str, i32)] = &[("eq", 1), ("ne", 2)]; OPS.iter().find(|p| p.0 == s).map(|p| p.1).ok_or(()) };
    static_arr: { static OPS: [(&str, usize); 2] = [("=", 1), ("1", 2)]; OPS.iter().filter(|o| s.starts_with(o.0)).map(|o| o.1).sum::<usize>() };
    once: iter::once(s).chain(s.split('.')).count();
    repeat_take: iter::repeat(s).take(2).collect::<Vec<_>>();
    from_fn: { let mut n = 0; iter::from_fn(|| { n += 1; if n < 3 { Some(n) } else { None } }).sum::<i32>() };
    successors: iter::successors(Some(1), |n| if *n < 20 { Some(n * 3) } else { None }).collect::<Vec<i32>>();
    empty: iter::empty::<i32>().next();
    sort_by: { let mut v: Vec<&str> = s.split('.').collect(); v.sort_by(|a, b| b.cmp(a)); v };
    sort_key: { let mut v: Vec<&str> = s.split('.').collect(); v.sort_by_key(|a| a.len()); v };
    max_by: s.split('.').max_by(|a, b| a.len().cmp(&b.len()));
    min_by_key: s.split('.').min_by_key(|a| a.len());
    partition: { let (a, b): (Vec<&str>, Vec<&str>) = s.split('.').partition(|p| p.is_empty()); (a, b) };
    unzip: { let (a, b): (Vec<usize>, Vec<&str>) = s.split('.').enumerate().unzip(); (a, b) };
    eq_iter: s.split('.').eq(s.split('-'));
    cmp_iter: s.split('.').cmp("1.2".split('.'));
    lt_iter: s.split('.').lt("1.2".split('.'));
    rev_enum: s.split('.').rev().enumerate().map(|(i, p)| (i, p)).collect::<Vec<_>>();
    last_by_rev: s.split('.').rev().find(|p| !p.is_empty());
    rposition: { let v: Vec<&str> = s.split('.').collect(); v.iter().rposition(|p| p.is_empty()) };
    scan: s.split('.').scan(0, |a, p| { *a += p.len(); Some(*a) }).collect::<Vec<_>>();
    inspect: { let mut n = 0; s.split('.').inspect(|_| n += 1).count(); n };
    step: s.split('.').step_by(2).collect::<Vec<_>>();
    chunks: { let v: Vec<&str> = s.split('.').collect(); v.chunks(2).map(|c| c.join("~")).collect::<Vec<_>>() };
    split_first_pat: { let v: Vec<&str> = s.split('.').collect(); v.split_first().map(|(a, r)| (*a, r.len())) };
    split_last_pat: { let v: Vec<&str> = s.split('.').collect(); v.split_last().map(|(a, r)| (*a, r.len())) };
    vec_eq: { let v: Vec<&str> = s.split('.').collect(); v == ["1", "2"] };
    vec_cmp: { let v: Vec<&str> = s.split('.').collect(); v.cmp(&vec!["1", "2"]) };
    vec_starts: { let v: Vec<&str> = s.split('.').collect(); v.starts_with(&["1"]) };
    vec_slice: { let v: Vec<&str> = s.split('.').collect(); v[1..].to_vec() };
    vec_iter_mut: { let mut v: Vec<String> = s.split('.').map(String::from).collect(); for x in v.iter_mut() { x.push('!'); } v };
    vec_for_mut: { let mut v: Vec<usize> = s.split('.').map(|x| x.len()).collect(); for x in &mut v { *x += 1; } v };
    vec_swap: { let mut v: Vec<&str> = s.split('.').collect(); let n = v.len(); v.swap(0, n - 1); v };
    vec_remove: { let mut v: Vec<&str> = s.split('.').collect(); v.remove(0); v };
    vec_append: { let mut v: Vec<&str> = s.split('.').collect(); let mut w = vec!["k"]; v.append(&mut w); (v, w.len()) };
    vec_split_off: { let mut v: Vec<&str> = s.split('.').collect(); let w = v.split_off(1); (v, w) };
    vec_resize: { let mut v: Vec<&str> = s.split('.').collect(); v.resize(3, "0"); v };
    vec_deque: { let mut v: VecDeque<&str> = s.split('.').collect(); v.push_front("a"); v.pop_back(); v.into_iter().collect::<Vec<_>>() };
    btree: { let v: BTreeSet<&str> = s.split('.').collect(); v.into_iter().collect::<Vec<_>>() };
    map_get: { let mut m = HashMap::new(); m.insert("1", 5); m.insert("2", 6); m.get(s).copied() };
    as_deref: { let o: Option<String> = s.strip_prefix("=").map(String::from); o.as_deref() == Some("1") };
    bool_then: s.starts_with('=').then(|| s.len());
    bool_xor: s.starts_with('^') ^ s.ends_with('$');
    bool_not_and: !(s.starts_with('^') && !s.ends_with('$'));
    boxed_fn: { let f: Box<dyn Fn(&str) -> bool> = Box::new(|x| x.len() > 2); f(s) };
    fn_ptr: { fn g(x: &str) -> usize { x.len() } let f: fn(&str) -> usize = g; f(s) };
    closure_cap: { let k = s.len(); let f = |n: usize| n + k; f(1) };
    closure_mut: { let mut k = 0; let mut f = |n: usize| { k += n; k }; f(1); f(s.len()) };
    char_digit: s.chars().next().and_then(|c| c.to_digit(10));
    char_lower: s.chars().next().map(|c| c.to_ascii_lowercase());
    char_eq_ic: s.chars().next().map_or(false, |c| c.eq_ignore_ascii_case(&'d'));
    char_is: s.chars().next().map(|c| (c.is_alphanumeric(), c.is_numeric(), c.is_ascii_punctuation()));
    char_u32: s.chars().next().map(|c| c as u32);
    char_cmp: s.chars().next().map_or(false, |c| c > '5');
    char_range: s.chars().next().map_or(false, |c| ('0'..='9').contains(&c));
    char_len: s.chars().next().map_or(0, |c| c.len_utf8());
    ends_chars: s.chars().next_back();
    rev_all: s.chars().rev().take_while(|c| *c == '*').count();
    escape: s.chars().map(|c| if c == '.' { "\\.".to_string() } else { c.to_string() }).collect::<Vec<_>>().concat();
    escape2: { let mut o = String::with_capacity(s.len()); for c in s.chars() { match c { '.' | '+' => { o.push('\\'); o.push(c) } '*' => o.push_str(".*"), _ => o.push(c) } } o };
    regex_m: Regex::new(r"^\d+(\.\d+)*$").unwrap().is_match(s);
    regex_find: Regex::new(r"\d+").unwrap().find(s).map(|m| (m.start(), m.end()));
    regex_find_str: Regex::new(r"[a-z]+").unwrap().find(s).map(|m| m.as_str());
    regex_iter: Regex::new(r"\d+|[a-z]+").unwrap().find_iter(s).map(|m| m.as_str()).collect::<Vec<_>>();
    regex_iter2: Regex::new(r"(\d+)|(\D+)").unwrap().find_iter(s).map(|m| &s[m.start()..m.end()]).collect::<Vec<_>>();
    regex_iter3: Regex::new(r"(\d+)|(\D+)").unwrap().find_iter(s).map(|m| &s[m.range()]).collect::<Vec<_>>();
    regex_iter_count: Regex::new(r"\d+").unwrap().find_iter(s).count();
    regex_caps: Regex::new(r"^([<>=!~]=?)(\S+)$").unwrap().captures(s).map(|c| (c[1].to_string(), c[2].to_string()));
    regex_caps2: Regex::new(r"^([<>=!~]=?)(\S+)$").unwrap().captures(s).and_then(|c| c.get(1).map(|m| m.as_str().len()));
    regex_caps_iter: Regex::new(r"(\d+)|(\D+)").unwrap().captures_iter(s).map(|c| if c.get(1).is_some() { 'd' } else { 't' }).collect::<String>();
    regex_named: Regex::new(r"^(?P<op>[=!]+)(?P<v>.*)$").unwrap().captures(s).map(|c| c["op"].len());
    regex_replace: Regex::new(r"\.").unwrap().replace_all(s, "-").to_string();
    regex_split: Regex::new(r"[.-]").unwrap().split(s).collect::<Vec<_>>();
    regex_ic: Regex::new("(?i)dev").unwrap().is_match(s);
    regex_anch: Regex::new("^1|2$").unwrap().is_match(s);
    regex_word: Regex::new(r"dev\b").unwrap().is_match(s);
    regex_esc: Regex::new(&format!("^{}$", regex::escape(s))).unwrap().is_match(s);
    regex_dyn: Regex::new(s).is_ok();
    regex_dyn2: Regex::new(&format!("^(?:{})$", s.replace(".", r"\.").replace("*", ".*"))).is_ok();
);

cases!(pair (s: &str, t: &str) fn(&str, &str) -> String;
    eq: s == t;
    cmp: s.cmp(t);
    pcmp: s.partial_cmp(t);
    lt: s < t;
    starts: s.starts_with(t);
    ends: s.ends_with(t);
    contains: s.contains(t);
    strip: s.strip_prefix(t);
    eqic: s.eq_ignore_ascii_case(t);
    eqlow: s.to_lowercase() == t.to_lowercase();
    cmplow: s.to_lowercase().cmp(&t.to_lowercase());
    unicase: unicase::UniCase::new(s) == unicase::UniCase::new(t);
    unicase_cmp: unicase::UniCase::new(s).cmp(&unicase::UniCase::new(t));
    unicase_fn: unicase::eq(s, t);
    unicase_ascii: unicase::UniCase::ascii(s) == unicase::UniCase::ascii(t);
    unicase_ascii_cmp: unicase::UniCase::ascii(s).cmp(&unicase::UniCase::ascii(t));
    unicase_ascii_lt: unicase::UniCase::ascii(s) < unicase::UniCase::ascii(t);
    ascii_new: unicase::Ascii::new(s) == unicase::Ascii::new(t);
    ascii_cmp: unicase::Ascii::new(s).cmp(&unicase::Ascii::new(t));
    eq_ascii: unicase::eq_ascii(s, t);
    lens: s.len().cmp(&t.len());
    tuple: (s.len(), s).cmp(&(t.len(), t));
    tuple_eq: (s, 1) == (t, 1);
    opt: Some(s).cmp(&Some(t));
    opt2: (if s.is_empty() { None } else { Some(s) }) < (if t.is_empty() { None } else { Some(t) });
    rev: Reverse(s).cmp(&Reverse(t));
    zip_all: s.chars().zip(t.chars()).all(|(a, b)| a == b);
    zip_split: s.split('.').zip(t.split('.')).find(|(a, b)| a != b);
    zip_cmp: s.split('.').zip(t.split('.')).map(|(a, b)| a.cmp(b)).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal);
    longest: { let (mut a, mut b) = (s.split('.'), t.split('.')); let mut n = 0; loop { match (a.next(), b.next()) { (None, None) => break, (Some(x), Some(y)) if x == y => n += 1, _ => { n += 10; break; } } } n };
    iter_eq: s.chars().eq(t.chars());
    prefix_parts: { let (a, b): (Vec<&str>, Vec<&str>) = (s.split('.').collect(), t.split('.').collect()); a.len() >= b.len() && a.iter().zip(&b).all(|(x, y)| x == y) };
    starts_vec: { let (a, b): (Vec<&str>, Vec<&str>) = (s.split('.').collect(), t.split('.').collect()); a.starts_with(&b) };
    get_vec: { let (a, b): (Vec<&str>, Vec<&str>) = (s.split('.').collect(), t.split('.').collect()); (0..a.len().max(b.len())).map(|i| a.get(i).unwrap_or(&"").cmp(b.get(i).unwrap_or(&""))).find(|o| *o != Ordering::Equal).unwrap_or(Ordering::Equal) };
    num_cmp: match (s.parse::<i32>(), t.parse::<i32>()) { (Ok(a), Ok(b)) => a.cmp(&b), (Ok(_), Err(_)) => Ordering::Greater, (Err(_), Ok(_)) => Ordering::Less, _ => s.cmp(t) };
    bools: s.is_empty().cmp(&t.is_empty());
    bools2: (s.contains("dev"), t.contains("dev"));
    fmt: format!("{}{}", s, t);
    cond: if s > t { s } else { t };
    mx: s.max(t);
    minlen: s.len().min(t.len());
);

cases!(num (a: i32, b: i32) fn(i32, i32) -> String;
    add: a.checked_add(b);
    sub: a.checked_sub(b);
    wsub: a.wrapping_sub(b).cmp(&0);
    wadd: a.wrapping_add(1);
    ssub: a.saturating_sub(b).signum();
    sadd: a.saturating_add(1);
    cmp: a.cmp(&b);
    pcmp: a.partial_cmp(&b);
    mx: a.max(b);
    mn: a.min(b);
    mx2: max(a, b);
    mn2: min(a, 0);
    mx3: std::cmp::max(a, 0);
    abs: a.checked_abs();
    sign: a.signum();
    pos: a.is_positive();
    neg: a.is_negative();
    clampv: a.clamp(0, 10);
    eq: a == b;
    lt: a < b;
    ge: a >= b;
    rng: (0..10).contains(&a);
    rng2: (b..=a).is_empty();
    mat: match a { 0 => "zero", 1..=9 => "digit", i32::MIN..=-1 => "neg", _ => "big" };
    mat2: match (a, b) { (0, 0) => 0, (0, _) => 1, (_, 0) => 2, (x, y) if x == y => 3, _ => 4 };
    cast: a as i64 > b as i64;
    cast_u: a as u8;
    cast_us: (a as usize) > 5;
    tryf: std::convert::TryFrom::try_from(a).map(|x: i16| x > 3).ok();
    from: i64::from(a);
    disp: a.to_string().len();
    disp2: format!("{}", a);
    ord: a.cmp(&b) as i32;
    ord2: a.cmp(&b) == Ordering::Less;
    diff: (a as i64 - b as i64).signum() as i32;
    diff2: (a as i64 - b as i64) > 3;
    negate: a.checked_neg();
    tup: (a, b) < (b, a);
    even: a % 2 == 0;
    div: a / 10;
    rem: a.rem_euclid(7);
    mul: a.checked_mul(2);
    shl: (a & 0xff) << 2;
    pow: 2i32.pow((a & 3) as u32);
    bit: a | 1;
    xor: a ^ b == 0;
    then: (a > 0).then(|| b);
    some: Some(a) > Some(b);
    boolcmp: (a > 0) > (b > 0);
    abs_diff: a.abs_diff(b) > 0;
    eqopt: Some(a).filter(|x| *x > 0) == None;
);

cases!(list (v: &[i32]) fn(&[i32]) -> String;
    len: v.len();
    first: v.first().copied();
    last: v.last().copied();
    get: v.get(1).copied();
    iter_sum: v.iter().sum::<i32>();
    iter_max: v.iter().max().copied();
    iter_min: v.iter().copied().min();
    all: v.iter().all(|x| *x == 0);
    any: v.iter().any(|&x| x > 1);
    count: v.iter().filter(|x| **x > 0).count();
    map: v.iter().map(|x| *x > 0).collect::<Vec<_>>();
    rev: v.iter().rev().copied().collect::<Vec<_>>();
    rev_pos: v.iter().rev().position(|x| *x != 0);
    rposition: v.iter().rposition(|x| *x != 0);
    skip: v.iter().skip(1).cloned().collect::<Vec<_>>();
    take: v.iter().take(2).cloned().collect::<Vec<_>>();
    skip_len: v.iter().skip(1).len();
    peek_len: { let mut it = v.iter().peekable(); it.peek(); it.len() };
    hint: v.iter().skip(1).size_hint().0;
    hint2: v.iter().enumerate().rev().size_hint().1;
    slice: if v.len() > 1 { &v[1..] } else { v };
    slice_pat: match v { [] => 0, [x] => *x, [a, b] => *a - *b, [a, .., z] => *a };
    slice_pat2: match v { [0, rest @ ..] => rest.len(), [.., 0] => 100, _ => 200 };
    split_at: if v.len() > 1 { let (a, b) = v.split_at(1); (a.to_vec(), b.to_vec()) } else { (vec![], vec![]) };
    split_first: v.split_first().map(|(a, r)| (*a, r.to_vec()));
    windows: v.windows(2).map(|w| w[0] < w[1]).collect::<Vec<_>>();
    chunks: v.chunks(2).map(|c| c.len()).collect::<Vec<_>>();
    contains: v.contains(&1);
    starts: v.starts_with(&[1]);
    ends: v.ends_with(&[0]);
    eq: v == [1, 2];
    cmp: v.cmp(&[1, 2][..]);
    to_vec: v.to_vec();
    iter_eq: v.iter().eq([1, 2].iter());
    iter_cmp: v.iter().cmp([1, 2].iter());
    iter_lt: v.iter().lt([1, 2].iter());
    iter_pcmp: v.iter().partial_cmp([1, 2].iter());
    fold: v.iter().fold(0i64, |a, x| a + *x as i64);
    try_fold: v.iter().try_fold(0i32, |a, x| a.checked_add(*x));
    while_let: { let mut it = v.iter(); let mut n = 0; while let Some(x) = it.next() { if *x == 0 { continue; } n += 1; } n };
    index: { let mut n = 0; for i in 0..v.len() { if v[i] == 0 { n = i; } } n };
    index_rev: { let mut n = v.len(); for i in (0..v.len()).rev() { if v[i] != 0 { break; } n = i; } n };
    step: (0..v.len()).step_by(2).map(|i| v[i]).collect::<Vec<_>>();
    zip: v.iter().zip(v.iter().skip(1)).all(|(a, b)| a <= b);
    zip_len: v.iter().zip(0..2).count();
    chain: v.iter().chain(&[7]).copied().collect::<Vec<_>>();
    chain_repeat: v.iter().copied().chain(iter::repeat(0)).take(3).collect::<Vec<_>>();
    longest: { let (mut a, mut b) = (v.iter(), [1, 2].iter()); let mut r = 0; loop { match (a.next(), b.next()) { (None, None) => break, (Some(x), Some(y)) => if x != y { r = 1; break }, (Some(x), None) => if *x != 0 { r = 2; break }, (None, Some(_)) => { r = 3; break } } } r };
    last_nonzero: v.iter().rev().skip_while(|x| **x == 0).count();
    trailing: v.iter().rev().take_while(|x| **x == 0).count();
    dedup: { let mut w = v.to_vec(); w.dedup(); w };
    sorted: { let mut w = v.to_vec(); w.sort(); w };
    sorted_by: { let mut w = v.to_vec(); w.sort_by(|a, b| b.cmp(a)); w };
    sort_key: { let mut w = v.to_vec(); w.sort_by_key(|a| Reverse(*a)); w };
    sort_unst: { let mut w = v.to_vec(); w.sort_unstable(); w };
    is_sorted: v.windows(2).all(|w| w[0] <= w[1]);
    popw: { let mut w = v.to_vec(); while w.last() == Some(&0) { w.pop(); } w };
    retain: { let mut w = v.to_vec(); w.retain(|x| *x != 0); w };
    drain: { let mut w = v.to_vec(); let d: Vec<i32> = w.drain(..).collect(); (w, d) };
    insert: { let mut w = v.to_vec(); w.insert(0, 9); w };
    swap_remove: { let mut w = v.to_vec(); if !w.is_empty() { w.swap_remove(0); } w };
    extend: { let mut w = v.to_vec(); w.extend_from_slice(&[3, 4]); w };
    extend_it: { let mut w = v.to_vec(); w.extend(v.iter()); w };
    concat: [v, &[5][..]].concat();
    max_by: v.iter().max_by(|a, b| a.cmp(b)).copied();
    min_by_key: v.iter().min_by_key(|a| Reverse(**a)).copied();
    partition: { let (a, b): (Vec<i32>, Vec<i32>) = v.iter().partition(|x| **x > 0); (a, b) };
    find: v.iter().find(|x| **x > 1).copied();
    find_map: v.iter().find_map(|x| if *x > 1 { Some(x + 1) } else { None });
    position: v.iter().position(|x| *x == 0);
    last_it: v.iter().last().copied();
    nth: v.iter().nth(1).copied();
    nth_back: v.iter().nth_back(0).copied();
    next_back: v.iter().next_back().copied();
    flat: v.iter().flat_map(|x| vec![*x, *x]).collect::<Vec<_>>();
    flatten: v.iter().map(|x| if *x > 0 { Some(*x) } else { None }).flatten().collect::<Vec<_>>();
    filter_map: v.iter().filter_map(|x| x.checked_sub(1)).collect::<Vec<_>>();
    map_while: v.iter().map_while(|x| if *x > 0 { Some(*x) } else { None }).collect::<Vec<_>>();
    rfind: v.iter().rfind(|x| **x == 0).copied();
    rfold: v.iter().rfold(0, |a, x| a * 2 + (*x == 0) as i32);
    reduce: v.iter().copied().reduce(|a, b| if a > b { a } else { b });
    cmp_by_len: v.len().cmp(&2);
    collect_res: v.iter().map(|x| if *x >= 0 { Ok(*x) } else { Err(()) }).collect::<Result<Vec<i32>, ()>>();
    collect_opt: v.iter().map(|x| x.checked_add(1)).collect::<Option<Vec<i32>>>();
    collect_str: v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".");
    collect_str2: v.iter().map(|x| format!("{}.", x)).collect::<String>();
    cycle: v.iter().cycle().take(3).count();
    array_map: [1, 2, 3].iter().map(|x| x * 2).sum::<i32>();
    array_into: [1, 2, 3].to_vec().into_iter().rev().collect::<Vec<i32>>();
    iter_mut: { let mut w = v.to_vec(); w.iter_mut().for_each(|x| *x = -1); w };
    last_mut: { let mut w = v.to_vec(); if let Some(x) = w.last_mut() { *x = 8; } w };
    first_mut: { let mut w = v.to_vec(); if let Some(x) = w.first_mut() { *x = 8; } w };
    get_mut: { let mut w = v.to_vec(); if let Some(x) = w.get_mut(1) { *x = 8; } w };
    index_mut: { let mut w = v.to_vec(); if !w.is_empty() { w[0] = 5; } w };
    label: { let mut r = 0; 'a: for x in v { for y in v { if x != y { r = 1; break 'a; } } } r };
    by_ref: { let mut it = v.iter(); let a = it.by_ref().take(1).count(); let b = it.count(); (a, b) };
    enumerate: v.iter().enumerate().filter(|(i, x)| **x == *i as i32).count();
    skip_while: v.iter().skip_while(|x| **x == 0).copied().collect::<Vec<_>>();
    product: v.iter().map(|x| (*x == 0) as i32).product::<i32>();
    unwrap_or: *v.get(0).unwrap_or(&-1);
    is_some_and: v.get(0).map_or(true, |x| *x > 0);
    vec_macro: vec![0; 3];
    vec_new: { let mut w: Vec<i32> = Vec::new(); w.push(1); w.push(2); w.len() };
    boxed: v.to_vec().into_boxed_slice().len();
    join: v.iter().map(ToString::to_string).collect::<Vec<String>>().join(",");
    fuse: { let mut it = v.iter().fuse(); it.next(); it.next(); it.next().is_none() };
    dyn_iter: { let it: Box<dyn Iterator<Item = &i32>> = if v.len() > 1 { Box::new(v.iter().rev()) } else { Box::new(v.iter()) }; it.count() };
    recursion: { fn f(v: &[i32]) -> i32 { match v.split_first() { Some((x, r)) => x.signum() + f(r), None => 0 } } f(v) };
    recursion2: { fn f(v: &[i32]) -> bool { v.is_empty() || v[0] == 0 && f(&v[1..]) } f(v) };
    pad: { let mut w = v.to_vec(); w.resize(3, 0); w };
    rotate: { let mut w = v.to_vec(); if w.len() > 1 { w.rotate_left(1); } w };
    fill: { let mut w = v.to_vec(); w.fill(1); w };
    cmp_len_then: v.len().cmp(&1).then_with(|| v.first().cmp(&Some(&1)));
    concat_vecs: vec![v.to_vec(), vec![1]].concat();
    opt_ord: v.first() < Some(&1);
    tuple_ord: (v.len(), v.first().copied()) < (1, Some(1));
    cow: { let c: Cow<[i32]> = if v.is_empty() { Cow::Owned(vec![1]) } else { Cow::Borrowed(v) }; c.len() };
);

#[cfg(test)]
mod native {
    use super::*;
    fn esc(s: &str) -> String { s.chars().flat_map(|c| c.escape_unicode()).collect() }
    #[test]
    fn lv_print() {
        std::panic::set_hook(Box::new(|_| ()));
        let w: Vec<&str> = include_str!("lvwords.txt").split('\u{1}').collect();
        let mut o = String::new();
        let mut put = |g: &str, n: &str, a: String, r: std::thread::Result<String>| o.push_str(&format!("{}\t{}\t{}\t{}\n", g, n, a, match r { Ok(x) => esc(&x), Err(_) => "PANIC".to_string() }));
        for (n, f) in text::lv_all() { for (i, s) in w.iter().enumerate() { put("text", n, i.to_string(), std::panic::catch_unwind(|| f(s))); } }
        for (n, f) in pair::lv_all() { for (i, s) in w.iter().enumerate() { for (j, t) in w.iter().enumerate() { put("pair", n, format!("{},{}", i, j), std::panic::catch_unwind(|| f(s, t))); } } }
        for (n, f) in num::lv_all() { for s in &NUMS { for t in &NUMS { put("num", n, format!("{},{}", s, t), std::panic::catch_unwind(|| f(*s, *t))); } } }
        for (n, f) in list::lv_all() { for s in LISTS { put("list", n, s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), std::panic::catch_unwind(|| f(s))); } }
        std::fs::write(std::env::var("LV_NATIVE").unwrap(), o).unwrap();
    }
    const NUMS: [i32; 9] = [0, 1, -1, 7, 12, 300, -40000, i32::MAX, i32::MIN];
    const LISTS: [&[i32]; 9] = [&[], &[0], &[1], &[1, 2], &[2, 1], &[1, 0, 0], &[0, 3, 0, 1], &[-1, -1], &[2, 2, 0]];
}
