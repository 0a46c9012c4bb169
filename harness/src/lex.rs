//! Text and values of the runtime types: reading, writing, constructing, converting.
use crate::guarded;
use chrono::{Datelike, FixedOffset, NaiveDate, NaiveTime, Offset, Timelike};
use serde_json::{json, Value};
use std::str::FromStr;
use xsd_types::types::*;

fn tz(t: Option<FixedOffset>) -> String {
    match t {
        None => "none".into(),
        Some(o) => {
            let s = o.fix().local_minus_utc();
            if s % 60 == 0 { (s / 60).to_string() } else { format!("{}s", s) }
        }
    }
}
fn frac(n: u32) -> String {
    format!("{:09}", n).trim_end_matches('0').to_string()
}
fn of_tz(s: &str) -> Option<FixedOffset> {
    if s == "none" { None } else { FixedOffset::east_opt(s.parse::<i32>().unwrap() * 60) }
}
fn int(s: &str) -> i32 {
    s.parse().unwrap()
}
fn time(f: &[String]) -> NaiveTime {
    let n: u32 = format!("{:0<9}", f[3]).parse().unwrap();
    NaiveTime::from_hms_nano_opt(int(&f[0]) as u32, int(&f[1]) as u32, int(&f[2]) as u32, n).unwrap()
}
fn day(f: &[String]) -> NaiveDate {
    NaiveDate::from_ymd_opt(int(&f[0]), int(&f[1]) as u32, int(&f[2]) as u32).unwrap()
}

pub trait Lex: Sized + FromStr + ToString + PartialEq + Default {
    fn fields(&self) -> Vec<String>;
    fn make(f: &[String]) -> Option<Self>;
    fn extra(&self) -> Value {
        json!([])
    }
    /// How it compares, and which of the operators hold.
    fn order(&self, _: &Self) -> (Value, Value) {
        (json!("-"), json!([]))
    }
}
macro_rules! ordered {
    () => {
        fn order(&self, o: &Self) -> (Value, Value) {
            let mut ops = vec![];
            if self < o { ops.push("<"); }
            if self <= o { ops.push("<="); }
            if self > o { ops.push(">"); }
            if self >= o { ops.push(">="); }
            let c = match self.partial_cmp(o) {
                None => "none",
                Some(std::cmp::Ordering::Less) => "lt",
                Some(std::cmp::Ordering::Equal) => "eq",
                Some(std::cmp::Ordering::Greater) => "gt",
            };
            (json!(c), json!(ops))
        }
    };
}

impl Lex for Date {
    fn fields(&self) -> Vec<String> {
        let d = self.value;
        vec![d.year().to_string(), d.month().to_string(), d.day().to_string(), tz(self.timezone)]
    }
    fn make(f: &[String]) -> Option<Self> {
        let mut d = Date::from_chrono_naive_date(day(f));
        d.timezone = of_tz(&f[3]);
        Some(d)
    }
    fn extra(&self) -> Value {
        let d = self.to_chrono_naive_date();
        json!([d.year().to_string(), d.month().to_string(), d.day().to_string()])
    }
}
impl Lex for Time {
    fn fields(&self) -> Vec<String> {
        let t = self.value;
        vec![t.hour().to_string(), t.minute().to_string(), t.second().to_string(), frac(t.nanosecond()), tz(self.timezone)]
    }
    fn make(f: &[String]) -> Option<Self> {
        let mut t = Time::from_chrono_naive_time(time(f));
        t.timezone = of_tz(&f[4]);
        Some(t)
    }
    fn extra(&self) -> Value {
        let t = self.to_chrono_naive_time();
        json!([t.hour().to_string(), t.minute().to_string(), t.second().to_string(), frac(t.nanosecond())])
    }
}
type Stamp = chrono::DateTime<FixedOffset>;
fn stamp_fields(d: &Stamp) -> Vec<String> {
    vec![
        d.year().to_string(), d.month().to_string(), d.day().to_string(), d.hour().to_string(),
        d.minute().to_string(), d.second().to_string(), frac(d.nanosecond()), tz(Some(*d.offset())),
    ]
}
fn stamp(f: &[String]) -> Stamp {
    use chrono::TimeZone;
    of_tz(&f[7]).unwrap().from_local_datetime(&day(f).and_time(time(&f[3..]))).unwrap()
}
impl Lex for DateTime {
    ordered!();
    fn fields(&self) -> Vec<String> {
        stamp_fields(&self.value)
    }
    fn make(f: &[String]) -> Option<Self> {
        Some(DateTime::from_chrono_datetime(stamp(f)))
    }
    fn extra(&self) -> Value {
        json!(stamp_fields(&self.to_chrono_datetime()))
    }
}
impl Lex for DateTimeStamp {
    ordered!();
    fn fields(&self) -> Vec<String> {
        stamp_fields(&self.value.value)
    }
    fn make(f: &[String]) -> Option<Self> {
        Some(DateTimeStamp::from_chrono_datetime(stamp(f)))
    }
    fn extra(&self) -> Value {
        json!(stamp_fields(&self.to_chrono_datetime()))
    }
}
impl Lex for GYear {
    fn fields(&self) -> Vec<String> {
        vec![self.value.to_string(), tz(self.timezone)]
    }
    fn make(f: &[String]) -> Option<Self> {
        GYear::new(int(&f[0]), of_tz(&f[1])).ok()
    }
}
impl Lex for GYearMonth {
    fn fields(&self) -> Vec<String> {
        vec![self.year.to_string(), self.month.to_string(), tz(self.timezone)]
    }
    fn make(f: &[String]) -> Option<Self> {
        GYearMonth::new(int(&f[0]), int(&f[1]), of_tz(&f[2])).ok()
    }
    fn extra(&self) -> Value {
        json!([self.clone().gyear().fields(), self.clone().gmonth().fields()])
    }
}
impl Lex for GMonth {
    fn fields(&self) -> Vec<String> {
        vec![self.value.to_string(), tz(self.timezone)]
    }
    fn make(f: &[String]) -> Option<Self> {
        GMonth::new(int(&f[0]), of_tz(&f[1])).ok()
    }
}
impl Lex for GMonthDay {
    fn fields(&self) -> Vec<String> {
        vec![self.month.to_string(), self.day.to_string(), tz(self.timezone)]
    }
    fn make(f: &[String]) -> Option<Self> {
        GMonthDay::new(int(&f[0]), int(&f[1]), of_tz(&f[2])).ok()
    }
    fn extra(&self) -> Value {
        json!([self.clone().gmonth().fields(), self.clone().gday().fields()])
    }
}
impl Lex for GDay {
    fn fields(&self) -> Vec<String> {
        vec![self.value.to_string(), tz(self.timezone)]
    }
    fn make(f: &[String]) -> Option<Self> {
        GDay::new(int(&f[0]), of_tz(&f[1])).ok()
    }
}
macro_rules! integers {
    ($($t:ident $via:ident $n:ident $conv:ident),*) => {$(
        impl Lex for $t {
            ordered!();
            fn fields(&self) -> Vec<String> { vec![self.0.to_string()] }
            fn make(f: &[String]) -> Option<Self> { Some($t::$via(num_bigint::$n::from_str(&f[0]).ok()?)) }
            fn extra(&self) -> Value {
                use num_bigint::{ToBigInt, ToBigUint};
                let _ = |x: &Integer, y: &NonNegativeInteger| (x.to_bigint(), y.to_biguint());
                json!([self.$conv().unwrap().to_string()])
            }
        }
    )*};
}
integers!(Integer from_bigint BigInt to_bigint, NegativeInteger from_bigint BigInt to_bigint,
    NonPositiveInteger from_bigint BigInt to_bigint, PositiveInteger from_biguint BigUint to_biguint,
    NonNegativeInteger from_biguint BigUint to_biguint);
impl Lex for Decimal {
    ordered!();
    fn fields(&self) -> Vec<String> {
        let (i, s) = self.0.as_bigint_and_exponent();
        vec![i.to_string(), s.to_string()]
    }
    fn make(f: &[String]) -> Option<Self> {
        Some(Decimal::from_bigdecimal(bigdecimal::BigDecimal::new(
            FromStr::from_str(&f[0]).ok()?,
            f[1].parse().ok()?,
        )))
    }
    fn extra(&self) -> Value {
        let (i, s) = self.to_bigdecimal().as_bigint_and_exponent();
        json!([i.to_string(), s.to_string()])
    }
}
impl Lex for Duration {
    ordered!();
    fn fields(&self) -> Vec<String> {
        vec![
            if self.is_negative { "-" } else { "" }.into(),
            self.years.to_string(), self.months.to_string(), self.days.to_string(),
            self.hours.to_string(), self.minutes.to_string(), self.seconds.to_string(),
        ]
    }
    fn make(f: &[String]) -> Option<Self> {
        Some(Duration {
            is_negative: f[0] == "-",
            years: f[1].parse().ok()?, months: f[2].parse().ok()?, days: f[3].parse().ok()?,
            hours: f[4].parse().ok()?, minutes: f[5].parse().ok()?, seconds: f[6].parse().ok()?,
        })
    }
    fn extra(&self) -> Value {
        match self.to_std_duration() {
            Err(_) => json!([]),
            Ok(d) => json!([d.as_secs().to_string(), frac(d.subsec_nanos())]),
        }
    }
}

/// A value is written, read back and written again.
fn observed<T: Lex>(x: T) -> Value {
    let mut v = json!({"st": "ok", "val": x.fields(), "extra": x.extra()});
    let w = guarded(|| {
        let out = x.to_string();
        match T::from_str(&out) {
            Err(_) => json!({"out": out, "back": "err", "bval": [], "out2": ""}),
            Ok(y) => json!({"out": out, "back": if y == x { "same" } else { "diff" },
                            "bval": y.fields(), "out2": y.to_string()}),
        }
    });
    if w["st"] == json!("panic") {
        v["back"] = json!("panic");
        v["out"] = json!("");
        v["out2"] = json!("");
        v["bval"] = json!([]);
    } else {
        for (k, x) in w.as_object().unwrap() {
            v[k] = x.clone();
        }
    }
    v
}
fn nothing(st: &str) -> Value {
    json!({"st": st, "val": [], "extra": [], "out": "", "back": "", "bval": [], "out2": ""})
}
fn one<T: Lex>(item: &Value) -> Value {
    let v = guarded(|| {
        let x = match item.as_str() {
            Some(text) => T::from_str(text).ok(),
            None => {
                let f: Vec<String> = item.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
                T::make(&f)
            }
        };
        x.map(observed).unwrap_or_else(|| nothing("err"))
    });
    if v["st"] == json!("panic") { nothing("panic") } else { v }
}
/// The values of two texts compared.
fn two<T: Lex>(item: &Value) -> Value {
    guarded(|| {
        let text = |k: &str| item[k].as_str().unwrap();
        if text("a") == "default" {
            return observed(T::default());
        }
        match (T::from_str(text("a")), T::from_str(text("b"))) {
            (Ok(a), Ok(b)) => {
                let (cmp, ops) = a.order(&b);
                #[allow(clippy::nonminimal_bool)]
                let ne = a != b;
                json!({"st": "ok", "cmp": cmp, "ops": ops, "eq": a == b, "ne": ne})
            }
            _ => json!({"st": "err"}),
        }
    })
}
/// items: a text is parsed, a list of fields is made into a value, two texts are compared.
pub fn lex(cmd: &Value) -> Value {
    fn all<T: Lex>(cmd: &Value) -> Value {
        let f = if cmd["items"][0].is_object() { two::<T> } else { one::<T> };
        json!({"st": "ok", "res": cmd["items"].as_array().unwrap().iter().map(f).collect::<Vec<_>>()})
    }
    match cmd["ty"].as_str().unwrap() {
        "date" => all::<Date>(cmd),
        "time" => all::<Time>(cmd),
        "dateTime" => all::<DateTime>(cmd),
        "dateTimeStamp" => all::<DateTimeStamp>(cmd),
        "gYear" => all::<GYear>(cmd),
        "gYearMonth" => all::<GYearMonth>(cmd),
        "gMonth" => all::<GMonth>(cmd),
        "gMonthDay" => all::<GMonthDay>(cmd),
        "gDay" => all::<GDay>(cmd),
        "integer" => all::<Integer>(cmd),
        "negativeInteger" => all::<NegativeInteger>(cmd),
        "nonPositiveInteger" => all::<NonPositiveInteger>(cmd),
        "positiveInteger" => all::<PositiveInteger>(cmd),
        "nonNegativeInteger" => all::<NonNegativeInteger>(cmd),
        "decimal" => all::<Decimal>(cmd),
        "duration" => all::<Duration>(cmd),
        t => json!({"st": format!("no type {}", t)}),
    }
}
