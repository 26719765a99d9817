//! The library's values, by meaning.
use crate::cal::D;
use crate::model::*;
use std::collections::BTreeMap;

pub fn text(t: &ikal::Text) -> V {
    V::Text(meaning(&t.text))
}

pub fn recur(r: &ikal::Recur) -> R {
    let mut by = BTreeMap::new();
    let mut put = |k: &str, v: &[i8]| {
        if !v.is_empty() {
            by.insert(
                k.to_string(),
                v.iter().map(|x| i64::from(*x)).collect::<Vec<_>>(),
            );
        }
    };
    put("BYSECOND", &r.by_second);
    put("BYMINUTE", &r.by_minute);
    put("BYHOUR", &r.by_hour);
    put("BYMONTHDAY", &r.by_monthday);
    put("BYYEARDAY", &r.by_yearday);
    put("BYWEEKNO", &r.by_weekno);
    put("BYMONTH", &r.by_month);
    put("BYSETPOS", &r.by_setpos);
    R {
        freq: freq(&r.freq).to_string(),
        interval: i64::from(r.interval),
        count: r.count.map(i64::from),
        until: r.until.as_ref().map(D::of_date),
        by,
        by_day: r
            .by_day
            .iter()
            .map(|d| (d.ord.map(i64::from), weekday(&d.weekday).to_string()))
            .collect(),
        wkst: r.wkst.as_ref().map(|w| weekday(w).to_string()),
    }
}

pub fn freq(f: &ikal::Freq) -> &'static str {
    use ikal::Freq::*;
    match f {
        Secondly => "SECONDLY",
        Minutely => "MINUTELY",
        Hourly => "HOURLY",
        Daily => "DAILY",
        Weekly => "WEEKLY",
        Monthly => "MONTHLY",
        Yearly => "YEARLY",
    }
}

pub fn weekday(w: &ikal::Weekday) -> &'static str {
    use ikal::Weekday::*;
    match w {
        Sunday => "SU",
        Monday => "MO",
        Tuesday => "TU",
        Wenesday => "WE",
        Thurday => "TH",
        Friday => "FR",
        Saturday => "SA",
    }
}

pub fn status(s: &ikal::Status) -> &'static str {
    use ikal::Status::*;
    match s {
        Tentative => "TENTATIVE",
        Confirmed => "CONFIRMED",
        Cancelled => "CANCELLED",
        NeedsAction => "NEEDS-ACTION",
        Completed => "COMPLETED",
        InProcess => "IN-PROCESS",
        Draft => "DRAFT",
        Final => "FINAL",
    }
}

pub fn transp(t: &ikal::TimeTransparency) -> &'static str {
    match t {
        ikal::TimeTransparency::Opaque => "OPAQUE",
        ikal::TimeTransparency::Transparent => "TRANSPARENT",
    }
}

pub fn class(c: &ikal::Class) -> String {
    match c {
        ikal::Class::Public => "PUBLIC".into(),
        ikal::Class::Private => "PRIVATE".into(),
        ikal::Class::Confidential => "CONFIDENTIAL".into(),
        ikal::Class::Custom(s) => raw_meaning(&s.to_uppercase()),
    }
}

pub fn period(p: &ikal::Period) -> P {
    match p {
        ikal::Period::StartEnd(p) => P::End(D::of_dt(&p.start), D::of_dt(&p.end)),
        ikal::Period::StartDur(p) => P::Dur(D::of_dt(&p.start), secs(&p.duration)),
    }
}

pub fn rdate(r: &ikal::RDate) -> V {
    match r {
        ikal::RDate::Date(d) => V::Dates(d.iter().map(D::of_date).collect()),
        ikal::RDate::Period(p) => V::Periods(p.iter().map(period).collect()),
    }
}

pub fn rstatus(r: &ikal::RequestStatus) -> V {
    V::Rstatus(
        r.statcode,
        meaning(&r.statdesc),
        r.extdata.as_ref().map(|x| meaning(x)),
    )
}

pub fn secs(d: &chrono::TimeDelta) -> i64 {
    d.num_seconds()
}

pub fn trigger(t: &ikal::Trigger) -> V {
    match t {
        ikal::Trigger::DateTime(d) => V::Date(D::of_dt(d)),
        ikal::Trigger::Duration(d) => V::Dur(secs(d)),
    }
}

/// How a field is lifted: whatever its wrapping, its values are pushed in order.
pub trait Field {
    fn put(&self, n: &mut Norm, name: &str);
}

impl<T: Field> Field for Option<T> {
    fn put(&self, n: &mut Norm, name: &str) {
        if let Some(x) = self {
            x.put(n, name);
        }
    }
}

impl<T: Field> Field for Vec<T> {
    fn put(&self, n: &mut Norm, name: &str) {
        for x in self {
            x.put(n, name);
        }
    }
}

macro_rules! field {
    ($ty:ty, |$x:ident| $params:expr, $v:expr) => {
        impl Field for $ty {
            fn put(&self, n: &mut Norm, name: &str) {
                let $x = self;
                n.push(name, $params, $v);
            }
        }
    };
    ($ty:ty, |$x:ident| $v:expr) => {
        field!($ty, |$x| &Params::new(), $v);
    };
}

field!(ikal::Text, |x| &x.params, text(x));
field!(ikal::Uri, |x| &x.params, V::Raw(raw_meaning(&x.uri)));
field!(ikal::DateTime, |x| V::Date(D::of_dt(x)));
field!(ikal::Date, |x| V::Date(D::of_date(x)));
field!(chrono::TimeDelta, |x| V::Dur(secs(x)));
field!(u8, |x| V::Int(u64::from(*x)));
field!(u32, |x| V::Int(u64::from(*x)));
field!(ikal::Geo, |x| V::Geo(x.lat, x.lon));
field!(ikal::RequestStatus, |x| rstatus(x));
field!(ikal::Recur, |x| V::Recur(recur(x)));
field!(ikal::Class, |x| V::Name(class(x)));
field!(ikal::Status, |x| V::Name(status(x).to_string()));
field!(ikal::TimeTransparency, |x| V::Name(transp(x).to_string()));
field!(chrono::FixedOffset, |x| V::Offset(i64::from(
    x.local_minus_utc()
)));
field!(ikal::RDate, |x| rdate(x));
field!(ikal::Period, |x| V::Period(period(x)));
field!(ikal::Trigger, |x| trigger(x));

/// ATTACH: a text by type, verbatim by meaning.
struct Attach<'a>(&'a ikal::Text);

impl Field for Attach<'_> {
    fn put(&self, n: &mut Norm, name: &str) {
        n.push(name, &self.0.params, V::Raw(raw_meaning(&self.0.text)));
    }
}

pub trait Lift {
    fn lift(&self) -> Norm;
}

macro_rules! lift {
    ($ty:ty, $kind:ident, { $($name:literal: $field:ident),* $(,)? }, $attach:ident, |$me:ident, $n:ident| $subs:block) => {
        impl Lift for $ty {
            fn lift(&self) -> Norm {
                let mut n = Norm::new(Kind::$kind);
                $( self.$field.put(&mut n, $name); )*
                attach!(self, n, $attach);
                // An extension property under the wrong collection gets a name of its own.
                for (k, cl) in &self.x_prop {
                    let name = if k.starts_with("X-") { k.clone() } else { format!("x_prop/{k}") };
                    n.push(&name, &cl.params, V::Raw(raw_meaning(&cl.value)));
                }
                for (k, cl) in &self.iana_prop {
                    let name = if k.starts_with("X-") { format!("iana_prop/{k}") } else { k.clone() };
                    n.push(&name, &cl.params, V::Raw(raw_meaning(&cl.value)));
                }
                let $me = self;
                let $n = &mut n;
                $subs
                n
            }
        }
    };
}

macro_rules! attach {
    ($me:expr, $n:ident, yes) => {
        for a in &$me.attach {
            Attach(a).put(&mut $n, "ATTACH");
        }
    };
    ($me:expr, $n:ident, no) => {};
}

lift!(ikal::VCalendar, Calendar, {
    "PRODID": prodid, "VERSION": version, "CALSCALE": calscale, "METHOD": method,
}, no, |me, n| {
    for x in &me.alarms { n.push_sub(x.lift()); }
    for x in &me.events { n.push_sub(x.lift()); }
    for x in &me.freebusy { n.push_sub(x.lift()); }
    for x in &me.journals { n.push_sub(x.lift()); }
    for x in &me.todo { n.push_sub(x.lift()); }
    for x in &me.timezones { n.push_sub(x.lift()); }
});

lift!(ikal::VEvent, Event, {
    "DTSTAMP": dtstamp, "UID": uid, "DTSTART": dtstart, "CLASS": class, "CREATED": created,
    "DESCRIPTION": description, "GEO": geo, "LAST-MODIFIED": last_modified, "LOCATION": location,
    "ORGANIZER": organizer, "PRIORITY": priority, "SEQUENCE": sequence, "STATUS": status,
    "SUMMARY": summary, "TRANSP": transp, "URL": url, "RECURID": recurid, "RRULE": rrule,
    "DTEND": dtend, "DURATION": duration, "ATTENDEE": attendee, "CATEGORIES": categories,
    "COMMENT": comment, "CONTACT": contact, "EXDATE": exdate, "REQUEST-STATUS": rstatus,
    "RELATED-TO": related_to, "RESOURCES": resources, "RDATE": rdate,
}, yes, |me, n| {
    for x in &me.alarms { n.push_sub(x.lift()); }
});

lift!(ikal::VTodo, Todo, {
    "DTSTAMP": dtstamp, "UID": uid, "CLASS": class, "COMPLETED": completed, "CREATED": created,
    "DTSTART": dtstart, "GEO": geo, "LAST-MODIFIED": last_modified, "LOCATION": location,
    "ORGANIZER": organizer, "PERCENT-COMPLETE": percent_complete, "PRIORITY": priority,
    "RECURID": recurid, "SEQUENCE": sequence, "STATUS": status, "SUMMARY": summary, "URL": url,
    "RRULE": rrule, "DUE": due, "DURATION": duration, "ATTENDEE": attendee,
    "CATEGORIES": categories, "COMMENT": comment, "CONTACT": contact, "EXDATE": exdate,
    "REQUEST-STATUS": rstatus, "RELATED-TO": related_to, "RESOURCES": resources, "RDATE": rdate,
}, yes, |_me, _n| {});

lift!(ikal::VJournal, Journal, {
    "DTSTAMP": dtstamp, "UID": uid, "CLASS": class, "CREATED": created, "DTSTART": dtstart,
    "LAST-MODIFIED": last_modified, "ORGANIZER": organizer, "RECURID": recurid,
    "SEQUENCE": sequence, "STATUS": status, "SUMMARY": summary, "URL": url, "RRULE": rrule,
    "ATTENDEE": attendee, "CATEGORIES": categories, "COMMENT": comment, "CONTACT": contact,
    "DESCRIPTION": description, "EXDATE": exdate, "RELATED-TO": related_to, "RDATE": rdate,
    "REQUEST-STATUS": rstatus,
}, yes, |_me, _n| {});

lift!(ikal::VFreebusy, Freebusy, {
    "DTSTAMP": dtstamp, "UID": uid, "CONTACT": contact, "DTSTART": dtstart, "DTEND": dtend,
    "ORGANIZER": organizer, "URL": url, "ATTENDEE": attendee, "COMMENT": comment,
    "FREEBUSY": freebusy, "REQUEST-STATUS": rstatus,
}, no, |_me, _n| {});

lift!(ikal::VTimezone, Timezone, {
    "TZID": tzid, "LAST-MODIFIED": last_modified, "TZURL": tzurl,
}, no, |me, n| {
    for x in &me.standard { n.push_sub(x.lift()); }
    for x in &me.daylight { n.push_sub(x.lift()); }
});

lift!(ikal::vtimezone::Standard, Standard, {
    "DTSTART": dtstart, "TZOFFSETTO": tzoffsetto, "TZOFFSETFROM": tzoffsetfrom, "RRULE": rrule,
    "COMMENT": comment, "RDATE": rdate, "TZNAME": tzname,
}, no, |_me, _n| {});

lift!(ikal::vtimezone::Daylight, Daylight, {
    "DTSTART": dtstart, "TZOFFSETTO": tzoffsetto, "TZOFFSETFROM": tzoffsetfrom, "RRULE": rrule,
    "COMMENT": comment, "RDATE": rdate, "TZNAME": tzname,
}, no, |_me, _n| {});

lift!(ikal::valarm::Audio, Audio, {
    "ACTION": action, "TRIGGER": trigger, "DURATION": duration, "REPEAT": repeat,
}, yes, |_me, _n| {});

lift!(ikal::valarm::Display, Display, {
    "ACTION": action, "TRIGGER": trigger, "DESCRIPTION": description, "DURATION": duration,
    "REPEAT": repeat,
}, no, |_me, _n| {});

lift!(ikal::valarm::Email, Email, {
    "ACTION": action, "TRIGGER": trigger, "DESCRIPTION": description, "SUMMARY": summary,
    "ATTENDEE": attendee, "DURATION": duration, "REPEAT": repeat,
}, yes, |_me, _n| {});

impl Lift for ikal::VAlarm {
    fn lift(&self) -> Norm {
        match self {
            ikal::VAlarm::Audio(a) => a.lift(),
            ikal::VAlarm::Display(a) => a.lift(),
            ikal::VAlarm::Email(a) => a.lift(),
        }
    }
}

/// Any component of the library.
#[derive(Clone, Debug, PartialEq)]
pub enum Any {
    Calendar(Box<ikal::VCalendar>),
    Event(Box<ikal::VEvent>),
    Todo(Box<ikal::VTodo>),
    Journal(Box<ikal::VJournal>),
    Freebusy(Box<ikal::VFreebusy>),
    Timezone(Box<ikal::VTimezone>),
    Standard(Box<ikal::vtimezone::Standard>),
    Daylight(Box<ikal::vtimezone::Daylight>),
    Alarm(Box<ikal::VAlarm>),
    Audio(Box<ikal::valarm::Audio>),
    Display(Box<ikal::valarm::Display>),
    Email(Box<ikal::valarm::Email>),
}

#[macro_export]
macro_rules! on_any {
    ($any:expr, $x:ident => $e:expr) => {
        match $any {
            $crate::lift::Any::Calendar($x) => $e,
            $crate::lift::Any::Event($x) => $e,
            $crate::lift::Any::Todo($x) => $e,
            $crate::lift::Any::Journal($x) => $e,
            $crate::lift::Any::Freebusy($x) => $e,
            $crate::lift::Any::Timezone($x) => $e,
            $crate::lift::Any::Standard($x) => $e,
            $crate::lift::Any::Daylight($x) => $e,
            $crate::lift::Any::Alarm($x) => $e,
            $crate::lift::Any::Audio($x) => $e,
            $crate::lift::Any::Display($x) => $e,
            $crate::lift::Any::Email($x) => $e,
        }
    };
}

/// The three conversions from text that every component offers.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Entry {
    Parse,
    Borrowed,
    Owned,
}

pub const ENTRIES: [Entry; 3] = [Entry::Parse, Entry::Borrowed, Entry::Owned];

fn conv<T>(s: &str, e: Entry) -> Result<T, ikal::Error>
where
    T: std::str::FromStr<Err = ikal::Error>
        + for<'a> TryFrom<&'a str, Error = ikal::Error>
        + TryFrom<String, Error = ikal::Error>,
{
    match e {
        Entry::Parse => s.parse(),
        Entry::Borrowed => T::try_from(s),
        Entry::Owned => T::try_from(s.to_string()),
    }
}

impl Any {
    /// Reads as the type for `kind`; alarms as `VAlarm`.
    pub fn read(kind: Kind, s: &str) -> Result<Any, ikal::Error> {
        Any::read_by(kind, s, Entry::Parse)
    }

    pub fn read_by(kind: Kind, s: &str, e: Entry) -> Result<Any, ikal::Error> {
        Ok(match kind {
            Kind::Calendar => Any::Calendar(Box::new(conv(s, e)?)),
            Kind::Event => Any::Event(Box::new(conv(s, e)?)),
            Kind::Todo => Any::Todo(Box::new(conv(s, e)?)),
            Kind::Journal => Any::Journal(Box::new(conv(s, e)?)),
            Kind::Freebusy => Any::Freebusy(Box::new(conv(s, e)?)),
            Kind::Timezone => Any::Timezone(Box::new(conv(s, e)?)),
            Kind::Standard => Any::Standard(Box::new(conv(s, e)?)),
            Kind::Daylight => Any::Daylight(Box::new(conv(s, e)?)),
            Kind::Audio | Kind::Display | Kind::Email => Any::Alarm(Box::new(conv(s, e)?)),
        })
    }

    /// Reads an alarm as the type of its kind.
    pub fn read_alarm_kind(kind: Kind, s: &str, e: Entry) -> Result<Any, ikal::Error> {
        Ok(match kind {
            Kind::Audio => Any::Audio(Box::new(conv(s, e)?)),
            Kind::Display => Any::Display(Box::new(conv(s, e)?)),
            Kind::Email => Any::Email(Box::new(conv(s, e)?)),
            _ => Any::read_by(kind, s, e)?,
        })
    }

    pub fn lift(&self) -> Norm {
        on_any!(self, x => x.lift())
    }

    pub fn write(&self) -> Result<String, ikal::Error> {
        on_any!(self, x => ikal::ser::ical(x.as_ref()))
    }

    pub fn debug(&self) -> String {
        on_any!(self, x => format!("{x:#?}"))
    }
}
