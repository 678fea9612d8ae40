//! C11: IMM dates and codes
use crate::obl::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::{date::Date, imm::IMM, months::Month};

const LETTERS: [u8; 12] = [b'F', b'G', b'H', b'J', b'K', b'M', b'N', b'Q', b'U', b'V', b'X', b'Z'];

fn imm_on(eval: Date) -> IMM {
    IMM::new(PricingContext::new(eval))
}
/// the serial number of the third Wednesday of a month
fn third_wednesday(y: i32, m: i32) -> i32 {
    let f = serial(y, m, 15);
    f + (4 + 7 - wday(f)) % 7
}
fn quarterly(m: i32) -> bool {
    m == 3 || m == 6 || m == 9 || m == 12
}
fn is_imm(x: Ymd, main: bool) -> bool {
    x.serial() == third_wednesday(x.y, x.m) && (!main || quarterly(x.m))
}
fn in_cycle(main: bool, m: i32) -> bool {
    !main || quarterly(m)
}
/// the earliest IMM date strictly after the day, searched month by month
fn next(x: Ymd, main: bool) -> Option<(i32, i32, i32)> {
    let (mut y, mut m) = (x.y, x.m);
    for _ in 0..5 {
        if in_cycle(main, m) {
            let t = third_wednesday(y, m);
            if t > x.serial() {
                return Some((t, y, m));
            }
        }
        m += 1;
        if m > 12 {
            m = 1;
            y += 1;
        }
        if y > 2199 {
            return None;
        }
    }
    None
}

//@ kani
pub fn an_imm_date_is_a_third_wednesday<S: Src>(s: &mut S) {
    let x = any_ymd(s);
    let main = s.boolean();
    let imm = imm_on(Date::from_serial(40000));
    ensures!(s, imm.is_imm_date(&to_date(x), main) == is_imm(x, main), "exactly the third Wednesdays of the cycle");
}

//@ kani unwind=6 timeout=400 thorough
pub fn the_next_main_imm_date_is_the_earliest_later_one<S: Src>(s: &mut S) {
    let x = ymd_between(s, 1900, 2199);
    requires!(s, x.serial() > MIN && x.serial() <= third_wednesday(2199, 12) - 1);
    let imm = imm_on(Date::from_serial(40000));
    let r = imm.next_date(&to_date(x), true);
    let (n, rm, ry) = (r.serial_number(), r.month() as i32, r.year());
    ensures!(s, n > x.serial(), "strictly later");
    ensures!(s, n == third_wednesday(ry, rm) && quarterly(rm), "an IMM date of the main cycle");
    let gap = month_index(ry, rm) - month_index(x.y, x.m);
    ensures!(s, gap >= 0 && gap <= 3, "within a quarter");
    ensures!(s, gap < 3 || (quarterly(x.m) && third_wednesday(x.y, x.m) <= x.serial()), "no earlier one");
}

//@ native
pub fn the_next_imm_date_day_by_day<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let d = Date::from_serial(n);
    let eval = s.int(MIN, MAX - 120);
    let imm = imm_on(Date::from_serial(eval));
    // the null date stands for the evaluation date
    let x = ymd_of(&if n == MIN { Date::from_serial(eval) } else { d });
    for main in [false, true] {
        ensures!(s, imm.is_imm_date(&d, main) == is_imm(ymd_of(&d), main), "third Wednesdays");
        if let Some((t, y, m)) = next(x, main) {
            ensures!(s, is_day(&imm.next_date(&d, main), t), "the earliest later IMM date");
            let code = format!("{}{}", LETTERS[m as usize - 1] as char, y % 10);
            ensures!(s, imm.next_code(&d, main) == code, "the code of the next IMM date");
        }
    }
}

//@ native
pub fn after_the_last_imm_date_there_is_none<S: Src>(s: &mut S) {
    let n = s.int(third_wednesday(2199, 12), MAX);
    let main = s.boolean();
    let imm = imm_on(Date::from_serial(40000));
    rejects!(s, imm.next_date(&Date::from_serial(n), main), "no next date in the range");
}

//@ native
pub fn the_code_names_month_and_year<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let x = ymd_of(&Date::from_serial(n));
    let d = Date::from_serial(third_wednesday(x.y, x.m));
    let imm = imm_on(Date::from_serial(s.int(MIN, MAX)));
    let code = imm.code(&d);
    ensures!(s, code == format!("{}{}", LETTERS[x.m as usize - 1] as char, x.y % 10), "letter and last digit");
    ensures!(s, imm.is_imm_code(&code, false), "a code is a valid code");
    ensures!(s, imm.is_imm_code(&code, true) == quarterly(x.m), "of the main cycle in quarter months only");
    // back from the code, from any reference date up to ten years earlier
    let back = s.int(0, 3600);
    let r = d.serial_number() - back;
    if r > MIN {
        ensures!(s, is_day(&imm.date(&code, &Date::from_serial(r)), d.serial_number()), "code and date translate into each other");
    }
}

//@ native
pub fn only_imm_dates_have_codes<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let d = Date::from_serial(n);
    requires!(s, !is_imm(ymd_of(&d), false));
    rejects!(s, imm_on(d).code(&d), "not an IMM date");
}

fn valid_code(b: &[u8], main: bool) -> Option<(i32, i32)> {
    if b.len() != 2 || !b[1].is_ascii_digit() {
        return None;
    }
    let m = LETTERS.iter().position(|l| *l == b[0].to_ascii_uppercase())? as i32 + 1;
    if in_cycle(main, m) {
        Some((m, (b[1] - b'0') as i32))
    } else {
        None
    }
}

//@ native
pub fn every_pair_of_bytes<S: Src>(s: &mut S) {
    let k = s.int(0, 128 * 128 - 1);
    let b = [(k / 128) as u8, (k % 128) as u8];
    let t = std::str::from_utf8(&b).unwrap();
    let imm = imm_on(Date::from_serial(40000));
    for main in [false, true] {
        ensures!(s, imm.is_imm_code(t, main) == valid_code(&b, main).is_some(), "a futures month letter of the cycle and a digit");
    }
}

//@ native
pub fn other_strings_are_not_codes<S: Src>(s: &mut S) {
    let n = s.int(0, 6);
    let mut t = String::new();
    for _ in 0..n {
        match s.int(0, 5) {
            0 => t.push(LETTERS[s.int(0, 11) as usize] as char),
            1 => t.push((b'0' + s.int(0, 9) as u8) as char),
            2 => t.push(s.int(0, 127) as u8 as char),
            3 => t.push(char::from_u32(s.int(128, 0x2ff) as u32).unwrap()),
            4 => t.push((LETTERS[s.int(0, 11) as usize]).to_ascii_lowercase() as char),
            _ => t.push(char::from_u32(s.int(0x660, 0x669) as u32).unwrap()),
        }
    }
    let imm = imm_on(Date::from_serial(40000));
    for main in [false, true] {
        ensures!(s, imm.is_imm_code(&t, main) == valid_code(t.as_bytes(), main).is_some(), "only a letter and a digit");
    }
}

/// the first third Wednesday of the month with this last digit of the year, not before the reference date
fn first_matching(m: i32, digit: i32, x: Ymd) -> Option<i32> {
    let mut y = x.y;
    while y <= 2199 {
        if y % 10 == digit && third_wednesday(y, m) >= x.serial() {
            return Some(third_wednesday(y, m));
        }
        y += 1;
    }
    None
}

//@ native
pub fn the_date_of_a_code_is_the_first_not_before_the_reference<S: Src>(s: &mut S) {
    let n = s.int(MIN, MAX);
    let eval = s.int(MIN + 1, MAX);
    let imm = imm_on(Date::from_serial(eval));
    let x = ymd_of(&Date::from_serial(if n == MIN { eval } else { n }));
    let m = s.int(1, 12);
    let digit = s.int(0, 9);
    let mut code = format!("{}{}", LETTERS[m as usize - 1] as char, digit);
    if s.boolean() {
        code = code.to_lowercase();
    }
    let main = s.boolean();
    if let Some(t) = first_matching(m, digit, x) {
        ensures!(s, is_day(&imm.date(&code, &Date::from_serial(n)), t), "the first matching date not before the reference date");
        if let Some((u, y, mm)) = next(ymd_of(&Date::from_serial(t + 1)), main) {
            ensures!(s, is_day(&imm.next_date_from_code(&code, main, &Date::from_serial(n)), u), "the next date after the code's");
            let c = format!("{}{}", LETTERS[mm as usize - 1] as char, y % 10);
            ensures!(s, imm.next_code_from_code(&code, main, &Date::from_serial(n)) == c, "the next code after the code");
        }
    } else {
        rejects!(s, imm.date(&code, &Date::from_serial(n)), "beyond the range");
    }
}

//@ native
pub fn the_date_of_no_code_is_rejected<S: Src>(s: &mut S) {
    let k = s.int(0, 128 * 128 - 1);
    let b = [(k / 128) as u8, (k % 128) as u8];
    // or one with something before or behind it
    let c = [0, b'0' + s.int(0, 9) as u8, LETTERS[s.int(0, 11) as usize], s.int(0, 127) as u8][s.int(0, 3) as usize];
    let mut t = std::str::from_utf8(&b).unwrap().to_string();
    match s.int(0, 3) {
        0 => t.push(c as char),
        1 => t.insert(0, c as char),
        2 => {
            t.pop();
        }
        _ => {}
    }
    requires!(s, valid_code(t.as_bytes(), false).is_none());
    rejects!(s, imm_on(Date::from_serial(40000)).date(&t, &Date::from_serial(40000)), "not a code");
}
