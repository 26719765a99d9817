//! Builds the library's components from the model, through their public fields.
use crate::cal::D;
use crate::lift::Any;
use crate::model::*;
use crate::tape::Src;

/// A way to store a text of the given meaning: special characters escaped or not.
pub fn stored(s: &mut Src, t: &str, wild: bool) -> String {
    if wild {
        return t.to_string();
    }
    // 0: plain where possible, 1: wire form, 2: mixed
    let style = s.usize(3);
    let cs = t.chars().collect::<Vec<_>>();
    let mut out = String::new();
    for (i, c) in cs.iter().enumerate() {
        let plain = match style {
            0 => true,
            1 => false,
            _ => s.chance(1, 2),
        };
        match c {
            '\\' => {
                let safe = !matches!(cs.get(i + 1), Some('\\' | ';' | ',' | 'n' | 'N' | '\n'));
                if !(plain && safe) {
                    out.push('\\');
                }
                out.push('\\');
            }
            ';' | ',' => {
                if !plain {
                    out.push('\\');
                }
                out.push(*c);
            }
            '\n' => out.push_str(if plain {
                "\n"
            } else if s.chance(1, 4) {
                "\\N"
            } else {
                "\\n"
            }),
            c => out.push(*c),
        }
    }
    out
}

pub fn freq(f: &str) -> ikal::Freq {
    use ikal::Freq::*;
    match f {
        "SECONDLY" => Secondly,
        "MINUTELY" => Minutely,
        "HOURLY" => Hourly,
        "DAILY" => Daily,
        "WEEKLY" => Weekly,
        "MONTHLY" => Monthly,
        _ => Yearly,
    }
}

pub fn weekday(w: &str) -> ikal::Weekday {
    use ikal::Weekday::*;
    match w {
        "SU" => Sunday,
        "MO" => Monday,
        "TU" => Tuesday,
        "WE" => Wenesday,
        "TH" => Thurday,
        "FR" => Friday,
        _ => Saturday,
    }
}

pub fn recur(r: &R) -> ikal::Recur {
    let by = |k: &str| {
        r.by.get(k)
            .map(|v| v.iter().map(|x| *x as i8).collect::<Vec<_>>())
            .unwrap_or_default()
    };
    let mut x = ikal::Recur::default();
    x.freq = freq(&r.freq);
    x.interval = r.interval as u8;
    x.count = r.count.map(|c| c as u8);
    x.until = r.until.map(|u| u.to_date());
    x.by_second = by("BYSECOND");
    x.by_minute = by("BYMINUTE");
    x.by_hour = by("BYHOUR");
    x.by_monthday = by("BYMONTHDAY");
    x.by_yearday = by("BYYEARDAY");
    x.by_weekno = by("BYWEEKNO");
    x.by_month = by("BYMONTH");
    x.by_setpos = by("BYSETPOS");
    x.by_day = r
        .by_day
        .iter()
        .map(|(o, d)| ikal::WeekdayNum {
            weekday: weekday(d),
            ord: o.map(|o| o as i8),
        })
        .collect();
    x.wkst = r.wkst.as_deref().map(weekday);
    x
}

pub fn dur(n: i64) -> chrono::TimeDelta {
    chrono::TimeDelta::try_seconds(n).expect("a duration in range")
}

pub fn period(p: &P) -> ikal::Period {
    match p {
        P::End(a, b) => ikal::Period::StartEnd(ikal::period::StartEnd {
            start: a.to_dt(),
            end: b.to_dt(),
        }),
        P::Dur(a, n) => ikal::Period::StartDur(ikal::period::StartDur {
            start: a.to_dt(),
            duration: dur(*n),
        }),
    }
}

pub fn class(c: &str) -> ikal::Class {
    match c {
        "PUBLIC" => ikal::Class::Public,
        "PRIVATE" => ikal::Class::Private,
        "CONFIDENTIAL" => ikal::Class::Confidential,
        c => ikal::Class::Custom(c.to_string()),
    }
}

pub fn status(c: &str) -> ikal::Status {
    use ikal::Status::*;
    match c {
        "TENTATIVE" => Tentative,
        "CONFIRMED" => Confirmed,
        "CANCELLED" => Cancelled,
        "NEEDS-ACTION" => NeedsAction,
        "COMPLETED" => Completed,
        "IN-PROCESS" => InProcess,
        "DRAFT" => Draft,
        _ => Final,
    }
}

pub fn transp(c: &str) -> ikal::TimeTransparency {
    match c {
        "OPAQUE" => ikal::TimeTransparency::Opaque,
        _ => ikal::TimeTransparency::Transparent,
    }
}

/// From a model value to the type of a field.
trait Make: Sized {
    fn make(s: &mut Src, wild: bool, p: &Prop) -> Self;
}

macro_rules! make {
    ($ty:ty, $pat:pat => $e:expr) => {
        impl Make for $ty {
            fn make(_s: &mut Src, _wild: bool, p: &Prop) -> Self {
                match &p.value {
                    $pat => $e,
                    v => unreachable!("{v:?} for {}", p.name),
                }
            }
        }
    };
}

impl Make for ikal::Text {
    fn make(s: &mut Src, wild: bool, p: &Prop) -> Self {
        let text = match &p.value {
            V::Text(t) => stored(s, t, wild),
            V::Raw(t) => t.clone(),
            v => unreachable!("{v:?}"),
        };
        ikal::Text {
            params: p.params.clone(),
            text,
        }
    }
}

impl Make for ikal::Uri {
    fn make(_s: &mut Src, _wild: bool, p: &Prop) -> Self {
        let V::Raw(t) = &p.value else { unreachable!() };
        ikal::Uri {
            params: p.params.clone(),
            uri: t.clone(),
        }
    }
}

impl Make for ikal::RequestStatus {
    fn make(s: &mut Src, wild: bool, p: &Prop) -> Self {
        let V::Rstatus(c, d, e) = &p.value else {
            unreachable!()
        };
        let mut r = ikal::RequestStatus::default();
        r.statcode = *c;
        r.statdesc = stored(s, d, wild);
        r.extdata = e.as_ref().map(|e| stored(s, e, wild));
        r
    }
}

make!(ikal::DateTime, V::Date(d) => d.to_dt());
make!(ikal::Date, V::Date(d) => d.to_date());
make!(chrono::TimeDelta, V::Dur(n) => dur(*n));
make!(u8, V::Int(n) => *n as u8);
make!(u32, V::Int(n) => *n as u32);
make!(ikal::Recur, V::Recur(r) => recur(r));
make!(ikal::Class, V::Name(n) => class(n));
make!(ikal::Status, V::Name(n) => status(n));
make!(ikal::TimeTransparency, V::Name(n) => transp(n));
make!(chrono::FixedOffset, V::Offset(n) => chrono::FixedOffset::east_opt(*n as i32).unwrap());
make!(ikal::Period, V::Period(p) => period(p));

impl Make for ikal::Geo {
    fn make(_s: &mut Src, _wild: bool, p: &Prop) -> Self {
        let V::Geo(a, b) = &p.value else {
            unreachable!()
        };
        let mut g = ikal::Geo::default();
        g.lat = *a;
        g.lon = *b;
        g
    }
}

impl Make for ikal::RDate {
    fn make(_s: &mut Src, _wild: bool, p: &Prop) -> Self {
        match &p.value {
            V::Dates(d) => ikal::RDate::Date(d.iter().map(D::to_date).collect()),
            V::Periods(d) => ikal::RDate::Period(d.iter().map(period).collect()),
            v => unreachable!("{v:?}"),
        }
    }
}

impl Make for ikal::Trigger {
    fn make(_s: &mut Src, _wild: bool, p: &Prop) -> Self {
        match &p.value {
            V::Date(d) => ikal::Trigger::DateTime(d.to_dt()),
            V::Dur(n) => ikal::Trigger::Duration(dur(*n)),
            v => unreachable!("{v:?}"),
        }
    }
}

/// Puts a value in a field, whatever its wrapping.
trait Slot {
    fn fill(&mut self, s: &mut Src, wild: bool, p: &Prop);
}

impl<T: Make> Slot for Option<T> {
    fn fill(&mut self, s: &mut Src, wild: bool, p: &Prop) {
        *self = Some(T::make(s, wild, p));
    }
}

impl<T: Make> Slot for Vec<T> {
    fn fill(&mut self, s: &mut Src, wild: bool, p: &Prop) {
        self.push(T::make(s, wild, p));
    }
}

macro_rules! slot {
    ($($ty:ty),*) => { $(
        impl Slot for $ty {
            fn fill(&mut self, s: &mut Src, wild: bool, p: &Prop) {
                *self = <$ty>::make(s, wild, p);
            }
        }
    )* };
}
slot!(
    ikal::Text,
    ikal::DateTime,
    ikal::Date,
    chrono::FixedOffset,
    ikal::Trigger
);

macro_rules! build {
    ($fn:ident, $ty:ty, { $($name:literal: $field:ident),* $(,)? }) => {
        pub fn $fn(s: &mut Src, wild: bool, comp: &Comp) -> $ty {
            let mut c = <$ty>::default();
            for p in &comp.props {
                if p.ty == Ty::Ext {
                    let V::Raw(v) = &p.value else { unreachable!() };
                    let map = if p.name.starts_with("X-") { &mut c.x_prop } else { &mut c.iana_prop };
                    map.insert(p.name.clone(), v.as_str().into());
                    let cl = map.get_mut(&p.name).unwrap();
                    cl.key = p.name.clone();
                    cl.params = p.params.clone();
                    continue;
                }
                match p.name.as_str() {
                    $( $name => c.$field.fill(s, wild, p), )*
                    n => unreachable!("{n}"),
                }
            }
            c
        }
    };
}

build!(calendar_only, ikal::VCalendar, {
    "PRODID": prodid, "VERSION": version, "CALSCALE": calscale, "METHOD": method,
});
build!(event_only, ikal::VEvent, {
    "DTSTAMP": dtstamp, "UID": uid, "DTSTART": dtstart, "CLASS": class, "CREATED": created,
    "DESCRIPTION": description, "GEO": geo, "LAST-MODIFIED": last_modified, "LOCATION": location,
    "ORGANIZER": organizer, "PRIORITY": priority, "SEQUENCE": sequence, "STATUS": status,
    "SUMMARY": summary, "TRANSP": transp, "URL": url, "RECURID": recurid, "RRULE": rrule,
    "DTEND": dtend, "DURATION": duration, "ATTACH": attach, "ATTENDEE": attendee, "CATEGORIES": categories,
    "COMMENT": comment, "CONTACT": contact, "EXDATE": exdate, "REQUEST-STATUS": rstatus,
    "RELATED-TO": related_to, "RESOURCES": resources, "RDATE": rdate,
});
build!(todo, ikal::VTodo, {
    "DTSTAMP": dtstamp, "UID": uid, "CLASS": class, "COMPLETED": completed, "CREATED": created,
    "DTSTART": dtstart, "GEO": geo, "LAST-MODIFIED": last_modified, "LOCATION": location,
    "ORGANIZER": organizer, "PERCENT-COMPLETE": percent_complete, "PRIORITY": priority,
    "RECURID": recurid, "SEQUENCE": sequence, "STATUS": status, "SUMMARY": summary, "URL": url,
    "RRULE": rrule, "DUE": due, "DURATION": duration, "ATTACH": attach, "ATTENDEE": attendee,
    "CATEGORIES": categories, "COMMENT": comment, "CONTACT": contact, "EXDATE": exdate,
    "REQUEST-STATUS": rstatus, "RELATED-TO": related_to, "RESOURCES": resources, "RDATE": rdate,
});
build!(journal, ikal::VJournal, {
    "DTSTAMP": dtstamp, "UID": uid, "CLASS": class, "CREATED": created, "DTSTART": dtstart,
    "LAST-MODIFIED": last_modified, "ORGANIZER": organizer, "RECURID": recurid,
    "SEQUENCE": sequence, "STATUS": status, "SUMMARY": summary, "URL": url, "RRULE": rrule,
    "ATTACH": attach, "ATTENDEE": attendee, "CATEGORIES": categories, "COMMENT": comment, "CONTACT": contact,
    "DESCRIPTION": description, "EXDATE": exdate, "RELATED-TO": related_to, "RDATE": rdate,
    "REQUEST-STATUS": rstatus,
});
build!(freebusy, ikal::VFreebusy, {
    "DTSTAMP": dtstamp, "UID": uid, "CONTACT": contact, "DTSTART": dtstart, "DTEND": dtend,
    "ORGANIZER": organizer, "URL": url, "ATTENDEE": attendee, "COMMENT": comment,
    "FREEBUSY": freebusy, "REQUEST-STATUS": rstatus,
});
build!(timezone_only, ikal::VTimezone, {
    "TZID": tzid, "LAST-MODIFIED": last_modified, "TZURL": tzurl,
});
build!(standard, ikal::vtimezone::Standard, {
    "DTSTART": dtstart, "TZOFFSETTO": tzoffsetto, "TZOFFSETFROM": tzoffsetfrom, "RRULE": rrule,
    "COMMENT": comment, "RDATE": rdate, "TZNAME": tzname,
});
build!(daylight, ikal::vtimezone::Daylight, {
    "DTSTART": dtstart, "TZOFFSETTO": tzoffsetto, "TZOFFSETFROM": tzoffsetfrom, "RRULE": rrule,
    "COMMENT": comment, "RDATE": rdate, "TZNAME": tzname,
});
build!(audio, ikal::valarm::Audio, {
    "ACTION": action, "TRIGGER": trigger, "DURATION": duration, "REPEAT": repeat, "ATTACH": attach,
});
build!(display, ikal::valarm::Display, {
    "ACTION": action, "TRIGGER": trigger, "DESCRIPTION": description, "DURATION": duration,
    "REPEAT": repeat,
});
build!(email, ikal::valarm::Email, {
    "ACTION": action, "TRIGGER": trigger, "DESCRIPTION": description, "SUMMARY": summary,
    "ATTENDEE": attendee, "DURATION": duration, "REPEAT": repeat, "ATTACH": attach,
});

pub fn alarm(s: &mut Src, wild: bool, c: &Comp) -> ikal::VAlarm {
    match c.kind {
        Kind::Audio => ikal::VAlarm::Audio(audio(s, wild, c)),
        Kind::Email => ikal::VAlarm::Email(email(s, wild, c)),
        _ => ikal::VAlarm::Display(display(s, wild, c)),
    }
}

pub fn event(s: &mut Src, wild: bool, c: &Comp) -> ikal::VEvent {
    let mut e = event_only(s, wild, c);
    e.alarms = c.subs.iter().map(|a| alarm(s, wild, a)).collect();
    e
}

pub fn timezone(s: &mut Src, wild: bool, c: &Comp) -> ikal::VTimezone {
    let mut t = timezone_only(s, wild, c);
    for o in &c.subs {
        if o.kind == Kind::Standard {
            t.standard.push(standard(s, wild, o));
        } else {
            t.daylight.push(daylight(s, wild, o));
        }
    }
    t
}

pub fn calendar(s: &mut Src, wild: bool, c: &Comp) -> ikal::VCalendar {
    let mut v = calendar_only(s, wild, c);
    for x in &c.subs {
        match x.kind {
            Kind::Event => v.events.push(event(s, wild, x)),
            Kind::Todo => v.todo.push(todo(s, wild, x)),
            Kind::Journal => v.journals.push(journal(s, wild, x)),
            Kind::Freebusy => v.freebusy.push(freebusy(s, wild, x)),
            Kind::Timezone => v.timezones.push(timezone(s, wild, x)),
            _ => v.alarms.push(alarm(s, wild, x)),
        }
    }
    v
}

pub fn any(s: &mut Src, wild: bool, c: &Comp) -> Any {
    match c.kind {
        Kind::Calendar => Any::Calendar(Box::new(calendar(s, wild, c))),
        Kind::Event => Any::Event(Box::new(event(s, wild, c))),
        Kind::Todo => Any::Todo(Box::new(todo(s, wild, c))),
        Kind::Journal => Any::Journal(Box::new(journal(s, wild, c))),
        Kind::Freebusy => Any::Freebusy(Box::new(freebusy(s, wild, c))),
        Kind::Timezone => Any::Timezone(Box::new(timezone(s, wild, c))),
        Kind::Standard => Any::Standard(Box::new(standard(s, wild, c))),
        Kind::Daylight => Any::Daylight(Box::new(daylight(s, wild, c))),
        // alarms as an alarm or as the type of their kind
        Kind::Audio if s.chance(1, 3) => Any::Audio(Box::new(audio(s, wild, c))),
        Kind::Display if s.chance(1, 3) => Any::Display(Box::new(display(s, wild, c))),
        Kind::Email if s.chance(1, 3) => Any::Email(Box::new(email(s, wild, c))),
        _ => Any::Alarm(Box::new(alarm(s, wild, c))),
    }
}
