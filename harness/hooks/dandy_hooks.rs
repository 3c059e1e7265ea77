// Constructors for automata with arbitrary transition tables, bypassing the text parser.
// Included into the dandy crate in verification builds only.
use crate::dfa::{Dfa, DfaState};
use crate::nfa::{Nfa, NfaState};
use ::std::rc::Rc;
use ::std::vec::Vec;
pub use ::std::collections::{HashMap, HashSet};

pub fn set_order(x: usize) {
    dandy_verif_std::order::set(x)
}

/// states: (name, accepting, transitions)
pub fn dfa(alphabet: &[&str], states: Vec<(&str, bool, Vec<usize>)>, initial: usize) -> Dfa {
    let alphabet: Vec<Rc<str>> = alphabet.iter().map(|s| Rc::from(*s)).collect();
    let mut out = Vec::with_capacity(states.len());
    for (k, (name, accepting, transitions)) in states.into_iter().enumerate() {
        out.push(DfaState { name: Rc::from(name), initial: k == initial, accepting, transitions });
    }
    Dfa { alphabet: Rc::from(alphabet), states: out, initial_state: initial }
}

/// states: (name, accepting, epsilon transitions, transitions)
pub fn nfa(alphabet: &[&str], states: Vec<(&str, bool, Vec<usize>, Vec<Vec<usize>>)>, initial: usize) -> Nfa {
    let alphabet: Vec<Rc<str>> = alphabet.iter().map(|s| Rc::from(*s)).collect();
    let mut out = Vec::with_capacity(states.len());
    for (k, (name, accepting, epsilon_transitions, transitions)) in states.into_iter().enumerate() {
        out.push(NfaState { name: Rc::from(name), initial: k == initial, accepting, epsilon_transitions, transitions });
    }
    Nfa { alphabet: Rc::from(alphabet), states: out, initial_state: initial }
}

use crate::parser::{NfaAlphabetEntry, ParsedDfa, ParsedDfaState, ParsedNfa, ParsedNfaState};

/// what the text of a DFA was read as; states: (name, initial, accepting, transitions)
pub fn parsed_dfa<'a>(head: Vec<&'a str>, states: Vec<(&'a str, bool, bool, Vec<&'a str>)>) -> ParsedDfa<'a> {
    let mut out = Vec::with_capacity(states.len());
    for (name, initial, accepting, transitions) in states {
        out.push(ParsedDfaState { name, initial, accepting, transitions });
    }
    ParsedDfa { head, states: out }
}
pub fn read_dfa<'a, 'b>(p: &'b ParsedDfa<'a>) -> (&'b [&'a str], Vec<(&'a str, bool, bool, &'b [&'a str])>) {
    (&p.head, p.states.iter().map(|s| (s.name, s.initial, s.accepting, &s.transitions[..])).collect())
}
/// None in the alphabet: ε
pub fn parsed_nfa<'a>(head: Vec<Option<&'a str>>, states: Vec<(&'a str, bool, bool, Vec<Vec<&'a str>>)>) -> ParsedNfa<'a> {
    let mut h = Vec::with_capacity(head.len());
    for x in head {
        h.push(match x {
            Some(x) => NfaAlphabetEntry::Element(x),
            None => NfaAlphabetEntry::Eps,
        });
    }
    let mut out = Vec::with_capacity(states.len());
    for (name, initial, accepting, transitions) in states {
        out.push(ParsedNfaState { name, initial, accepting, transitions });
    }
    ParsedNfa { head: h, states: out }
}
pub fn read_nfa<'a, 'b>(p: &'b ParsedNfa<'a>) -> (Vec<Option<&'a str>>, Vec<(&'a str, bool, bool, &'b [Vec<&'a str>])>) {
    (
        p.head
            .iter()
            .map(|e| match e {
                NfaAlphabetEntry::Element(x) => Some(*x),
                NfaAlphabetEntry::Eps => None,
            })
            .collect(),
        p.states.iter().map(|s| (s.name, s.initial, s.accepting, &s.transitions[..])).collect(),
    )
}
