use crate::explore::Prop;

mod basics;
mod feeds;
mod grid;
mod json;
mod numeric;
mod swells;
mod texts;

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => basics::c01(),
        "C02" => basics::c02(),
        "C03" => basics::c03(),
        "C04" => basics::c04(),
        "C05" => basics::c05(),
        "C06" => basics::c06(),
        "C07" => feeds::c07(),
        "C08" => feeds::c08(),
        "C09" => feeds::c09(),
        "C10" => feeds::c10(),
        "C11" => feeds::c11(),
        "C12" => feeds::c12(),
        "C13" => grid::c13(),
        "C14" => grid::c14(),
        "C15" => grid::c15(),
        "C16" => grid::c16(),
        "C20" => grid::c20(),
        "C21" => grid::c21(),
        "C22" => grid::c22(),
        "C23" => grid::c23(),
        "C17" => swells::c17(),
        "C18" => swells::c18(),
        "C26" => swells::c26(),
        "C27" => swells::c27(),
        "C19" => numeric::c19(),
        "C24" => numeric::c24(),
        "C25" => numeric::c25(),
        "C28" => numeric::c28(),
        "C30" => numeric::c30(),
        "C29" => json::c29(),
        "C31" => json::c31(),
        "C35" => texts::c35(),
        _ => return None,
    })
}
