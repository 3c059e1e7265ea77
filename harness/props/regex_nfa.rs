// The NFA of a regular expression accepts what the expression describes
use dandy::regex::{Regex, RegexChar, RegexTree};
fn to_nfa<const H: usize, const L: usize, const P: usize, const W: usize>() {
    hash_order(2);
    const C: [&str; 3] = ["a", "b", "x"];
    let mut w = [0; L];
    let mut s = [""; L];
    for i in 0..L {
        w[i] = choice(3); // the last is in no expression
        s[i] = C[w[i]];
    }
    let n = choice(L + 1);
    let (t, m) = if W > 0 { any_wide::<P, W>(H, 0, &C[..2], &w) } else { any_tree::<P>(H, &C[..2], &w) };
    let x = Regex { tree: t }.to_nfa();
    let k = x.states().len();
    let init = x.initial_state_index();
    check(init < k, "initial state exists");
    observe(k);
    check(x.accepts(&s[..n]) == m[0][n], "the NFA accepts what the expression describes");
    for i in 0..x.alphabet().len() {
        for j in 0..i {
            check(x.alphabet()[i] != x.alphabet()[j], "symbols of the alphabet are distinct");
        }
    }
    observe(m[0][n] as usize);
    cover(m[0][n] && n == L, "a word is matched");
}
// the states of that NFA are well-formed
fn formed<const H: usize, const N: usize, const W: usize>() {
    hash_order(2);
    let (t, _) = if W > 0 { any_wide::<1, W>(H, 0, &["a", "b"], &[0]) } else { any_tree::<1>(H, &["a", "b"], &[0]) };
    let x = Regex { tree: t }.to_nfa();
    let s = x.states();
    let k = x.alphabet().len();
    check(s.len() <= N, "number of states within the bound");
    for i in 0..N {
        if i < s.len() {
            check(s[i].is_initial() == (i == x.initial_state_index()), "initial flag set exactly on the initial state");
            check(s[i].transitions().len() == k, "a set of transitions for every symbol");
            for t in s[i].transitions() {
                for &j in t {
                    check(j < s.len(), "transition target exists");
                }
            }
            for &j in s[i].epsilon_transitions() {
                check(j < s.len(), "target of an ε-move exists");
            }
            for j in 0..i {
                check(s[i].name() != s[j].name(), "names of states are distinct");
            }
        }
    }
    observe(s.len());
    cover(k == 2, "two symbols");
}
entries! {
    vx_to_nfa_1 = to_nfa::<1, 3, 4, 0>;
    vx_to_nfa_2 = to_nfa::<2, 3, 4, 0>;
    vx_to_nfa_3 = to_nfa::<3, 3, 4, 0>;
    vx_wide_0 = to_nfa::<0, 4, 5, 4>;
    vx_wide_1 = to_nfa::<1, 3, 4, 3>;
    vx_formed_2 = formed::<2, 20, 0>;
    vx_formed_3 = formed::<3, 44, 0>;
    vx_formed_w = formed::<1, 40, 3>;
}
