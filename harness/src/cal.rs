//! Calendar arithmetic written from scratch (proleptic Gregorian), independent of chrono.

pub fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if is_leap(y) => 29,
        2 => 28,
        _ => 0,
    }
}

pub fn exists(y: i64, m: i64, d: i64) -> bool {
    (1..=12).contains(&m) && d >= 1 && d <= month_len(y, m)
}

/// Days since 1970-01-01.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    // whole 400-year cycles, then years, then months
    let y0 = y - 1;
    let mut n = y0 * 365 + y0.div_euclid(4) - y0.div_euclid(100) + y0.div_euclid(400);
    for i in 1..m {
        n += month_len(y, i);
    }
    n + d - 719_163
}

pub fn civil(days_: i64) -> (i64, i64, i64) {
    let mut y = 1970 + days_.div_euclid(366);
    // `y` is at most the right year for the future, at least for the past: walk.
    while days(y + 1, 1, 1) <= days_ {
        y += 1;
    }
    while days(y, 1, 1) > days_ {
        y -= 1;
    }
    let mut rest = days_ - days(y, 1, 1);
    let mut m = 1;
    while rest >= month_len(y, m) {
        rest -= month_len(y, m);
        m += 1;
    }
    (y, m, rest + 1)
}

pub const DAY: i64 = 86_400;

/// A date or a date-time: days or seconds since 1970.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum D {
    Date(i64),
    Naive(i64),
    Utc(i64),
}

impl D {
    pub fn day(&self) -> i64 {
        match self {
            D::Date(d) => *d,
            D::Naive(s) | D::Utc(s) => s.div_euclid(DAY),
        }
    }

    pub fn secs(&self) -> i64 {
        match self {
            D::Date(d) => d * DAY,
            D::Naive(s) | D::Utc(s) => *s,
        }
    }

    pub fn has_time(&self) -> bool {
        !matches!(self, D::Date(_))
    }

    pub fn kind(&self) -> &'static str {
        match self {
            D::Date(_) => "date",
            D::Naive(_) => "naive",
            D::Utc(_) => "utc",
        }
    }

    /// iCalendar text.
    pub fn text(&self) -> String {
        let (y, m, d) = civil(self.day());
        let mut s = format!("{y:04}{m:02}{d:02}");
        if let D::Naive(t) | D::Utc(t) = self {
            let t = t.rem_euclid(DAY);
            s.push_str(&format!("T{:02}{:02}{:02}", t / 3600, t / 60 % 60, t % 60));
        }
        if let D::Utc(_) = self {
            s.push('Z');
        }
        s
    }

    /// Strict reader of the text form.
    pub fn read(s: &str) -> Option<D> {
        let b = s.as_bytes();
        let num = |r: std::ops::Range<usize>| -> Option<i64> {
            let mut n = 0;
            for c in b.get(r)? {
                if !c.is_ascii_digit() {
                    return None;
                }
                n = n * 10 + i64::from(c - b'0');
            }
            Some(n)
        };
        let (y, m, d) = (num(0..4)?, num(4..6)?, num(6..8)?);
        if !exists(y, m, d) {
            return None;
        }
        let day = days(y, m, d);
        if b.len() == 8 {
            return Some(D::Date(day));
        }
        if b[8] != b'T' {
            return None;
        }
        let (h, mi, sec) = (num(9..11)?, num(11..13)?, num(13..15)?);
        if h > 23 || mi > 59 || sec > 59 {
            return None;
        }
        let t = day * DAY + h * 3600 + mi * 60 + sec;
        match &b[15..] {
            b"" => Some(D::Naive(t)),
            b"Z" => Some(D::Utc(t)),
            _ => None,
        }
    }

    pub fn naive_date(&self) -> chrono::NaiveDate {
        let (y, m, d) = civil(self.day());
        chrono::NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap()
    }

    pub fn naive_dt(&self) -> chrono::NaiveDateTime {
        let t = self.secs().rem_euclid(DAY);
        self.naive_date()
            .and_hms_opt((t / 3600) as u32, (t / 60 % 60) as u32, (t % 60) as u32)
            .unwrap()
    }

    pub fn local(&self) -> chrono::DateTime<chrono::Local> {
        self.naive_dt().and_utc().with_timezone(&chrono::Local)
    }

    pub fn to_dt(&self) -> ikal::DateTime {
        match self {
            D::Date(_) | D::Naive(_) => ikal::DateTime::Naive(self.naive_dt()),
            D::Utc(_) => ikal::DateTime::Local(self.local()),
        }
    }

    pub fn to_date(&self) -> ikal::Date {
        match self {
            D::Date(_) => ikal::Date::Date(self.naive_date()),
            _ => ikal::Date::DateTime(self.to_dt()),
        }
    }

    pub fn of_naive_date(d: &chrono::NaiveDate) -> i64 {
        use chrono::Datelike as _;
        days(
            i64::from(d.year()),
            i64::from(d.month()),
            i64::from(d.day()),
        )
    }

    pub fn of_naive_dt(d: &chrono::NaiveDateTime) -> i64 {
        use chrono::Timelike as _;
        D::of_naive_date(&d.date()) * DAY
            + i64::from(d.hour()) * 3600
            + i64::from(d.minute()) * 60
            + i64::from(d.second())
    }

    pub fn of_dt(d: &ikal::DateTime) -> D {
        match d {
            ikal::DateTime::Naive(n) => D::Naive(D::of_naive_dt(n)),
            ikal::DateTime::Local(l) => D::Utc(D::of_naive_dt(&l.naive_utc())),
        }
    }

    pub fn of_date(d: &ikal::Date) -> D {
        match d {
            ikal::Date::Date(d) => D::Date(D::of_naive_date(d)),
            ikal::Date::DateTime(dt) => D::of_dt(dt),
        }
    }
}

/// Steps of a frequency as the reference understands them: the k-th candidate start (k >= 1) after
/// `start`, or `None` where the calendar has no such day. A plain date with a sub-daily frequency
/// counts from midnight.
pub fn candidate(start: D, freq: &str, interval: i64, k: i64) -> Option<D> {
    let n = interval.max(1).checked_mul(k)?;
    let secs = match freq {
        "SECONDLY" => 1,
        "MINUTELY" => 60,
        "HOURLY" => 3600,
        "DAILY" => DAY,
        "WEEKLY" => 7 * DAY,
        _ => 0,
    };
    if secs > 0 {
        let delta = n.checked_mul(secs)?;
        return Some(match start {
            D::Date(d) if secs >= DAY => D::Date(d + delta / DAY),
            D::Date(d) => D::Naive(d * DAY + delta),
            D::Naive(s) => D::Naive(s + delta),
            D::Utc(s) => D::Utc(s + delta),
        });
    }
    let months = if freq == "YEARLY" { n * 12 } else { n };
    let (y, m, d) = civil(start.day());
    let index = y * 12 + (m - 1) + months;
    let (y, m) = (index.div_euclid(12), index.rem_euclid(12) + 1);
    if !exists(y, m, d) {
        return None;
    }
    let shift = days(y, m, d) - start.day();
    Some(match start {
        D::Date(x) => D::Date(x + shift),
        D::Naive(s) => D::Naive(s + shift * DAY),
        D::Utc(s) => D::Utc(s + shift * DAY),
    })
}

/// Is `a` after `b`, by the ordering the library documents: a date and a date-time by day.
pub fn after(a: D, b: D) -> bool {
    if a.has_time() && b.has_time() {
        a.secs() > b.secs()
    } else {
        a.day() > b.day()
    }
}

#[cfg(test)]
mod test {
    use super::*;

    #[test]
    fn civil_round_trip() {
        for n in (-800_000..3_000_000).step_by(37) {
            let (y, m, d) = civil(n);
            assert!(exists(y, m, d));
            assert_eq!(days(y, m, d), n);
        }
        assert_eq!(days(1970, 1, 1), 0);
        assert_eq!(civil(19723), (2024, 1, 1));
    }
}
