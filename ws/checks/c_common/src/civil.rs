//! Reference calendar, written from the proleptic Gregorian rules and independent of chrono.
pub const DAY: i64 = 86_400;
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
pub fn leap(y: i64) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub fn mdays(y: i64, m: i64) -> i64 { match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
/// unit: 0 hour, 1 day, 2 week, 3 month, 4 year
pub fn bucket(unit: usize, s: i64) -> i64 {
    let day = s.div_euclid(DAY);
    match unit {
        0 => s.div_euclid(3600) * 3600,
        1 => day * DAY,
        2 => (day - (day + 3).rem_euclid(7)) * DAY, // 1970-01-01 was a Thursday; weeks start on Monday
        3 => { let (y, m, _) = civil_from_days(day); days_from_civil(y, m, 1) * DAY }
        _ => { let (y, _, _) = civil_from_days(day); days_from_civil(y, 1, 1) * DAY }
    }
}
/// the start of the bucket after the one starting at `s`
pub fn next(unit: usize, s: i64) -> i64 { shift(unit, s, 1) }
/// calendar shift, day of month clamped
pub fn shift(unit: usize, s: i64, n: i64) -> i64 {
    let (day, tod) = (s.div_euclid(DAY), s.rem_euclid(DAY));
    match unit {
        0 => s + 3600 * n,
        1 => s + DAY * n,
        2 => s + 7 * DAY * n,
        u => {
            let (y, m, d) = civil_from_days(day);
            let t = y * 12 + (m - 1) + if u == 3 { n } else { 12 * n };
            let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1);
            days_from_civil(y, m, d.min(mdays(y, m))) * DAY + tod
        }
    }
}
pub fn fmt(s: i64) -> String {
    let (y, m, d) = civil_from_days(s.div_euclid(DAY));
    let t = s.rem_euclid(DAY);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}", t / 3600, t / 60 % 60, t % 60)
}
