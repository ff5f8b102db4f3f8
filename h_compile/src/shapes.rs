//! Program shapes: templates in the form the individual rewrites look for, with every
//! combination of fillings for their holes `@a`, `@b`, ...

use crate::worlds::TextCase;

pub struct Shape {
    pub name: &'static str,
    pub text: &'static str,
    pub holes: &'static [&'static [&'static str]],
}

const DEFS: &str = "## A Shape is one of:\n    A Circle with radius Int.\n    A Dot.\n\n";

pub const SHAPES: &[Shape] = &[
    // Loops with a closed form: what runs between the initialisations and the loop, start
    // values, bounds, steps and accumulations.
    Shape {
        name: "counted accumulation",
        text: "## To id (x: Int) -> Int:\n    Let xs be [x].\n    Repeat for y in xs:\n        Return y.\n    Return 0.\n\n## Main\nLet c be id(2).\nLet v be a new Circle with radius 4.\nLet mutable ys be [7, 8].\nLet mutable s be @a.\nLet mutable k be @b.\n@cWhile k @d:\n    @f\nShow s.\nShow k.\nShow ys.\n",
        holes: &[
            &["0", "3", "id(-2)"],
            &["0", "1", "2", "-3"],
            &[
                "",
                "If c is greater than 1:\n    Set k to 3.\n",
                "Inspect v:\n    When Circle (r):\n        Set k to r.\n    When Dot:\n        Set k to 0.\n",
                "Pop from ys into k.\n",
                "Repeat for q in ys:\n    Set s to q.\n",
                "Inside a new zone called \"Z\":\n    Set s to 9.\n",
                "Set s to c.\nSet k to c.\n",
            ],
            &["is less than 5", "is at most 5", "is less than c", "is at most c", "is less than 0", "is at most -5", "is less than 6 - s % 3"],
            &["s + k", "s + 1", "s * 2", "(s + k) % 7", "s - k"],
            &["Set s to @e.\n    Set k to k + 1.", "Set s to @e.\n    Set k to k + 2.", "Set k to k + 1.\n    Set s to @e."],
        ],
    },
    // The same with a constant multiplication and remainder, long enough to overflow.
    Shape {
        name: "accumulation to large values",
        text: "## To id (x: Int) -> Int:\n    Let xs be [x].\n    Repeat for y in xs:\n        Return y.\n    Return 0.\n\n## Main\nLet c be id(@a).\nLet mutable s be @b.\nLet mutable k be @c.\nWhile k @d c:\n    @f\nShow s.\nShow k.\n",
        holes: &[
            &["0", "1", "63", "64", "70", "200"],
            &["1", "3", "0", "-1", "9000000000000000000"],
            &["0", "1"],
            &["is less than", "is at most"],
            &["s * 2", "s + k", "(s + k) % 1000000007", "(s * 31 + k) % 1000000007", "(s * 3) % 10", "s + s", "s - k", "(s - k) % 5"],
            &["Set s to @e.\n    Set k to k + 1.", "Set k to k + 1.\n    Set s to @e."],
        ],
    },
    // A squared loop variable, recomputed by the next round.
    Shape {
        name: "squares carried around a loop",
        text: "## Main\nLet mutable zr be @a.\nLet mutable zi be @b.\nLet mutable it be 0.\nLet mutable esc be 0.\nWhile it is less than 6:\n    Let a be @c.\n    Let b be @d.\n    @e\n    If @f:\n        @g\n    Set it to it + 1.\nShow zr.\nShow zi.\nShow it.\nShow esc.\n",
        holes: &[
            &["0.0", "0.5", "1"],
            &["0.25", "0.0"],
            &["zr * zr - zi * zi + 0.3", "zr * zr + zi * zi"],
            &["2.0 * zr * zi + 0.1", "zr * zi"],
            &["Set zr to a.\n    Set zi to b.", "Set zr to a.\n    Set zi to zi + 1.0.", "Set zr to a.\n    Set zi to b.\n    Set zr to zr + b.", "If it is greater than 2:\n        Set zr to a.\n    Set zi to b."],
            &["zr * zr + zi * zi is greater than 4.0", "zr * zr is less than 0.05", "zr * zr + it is greater than 2.0"],
            &["Set esc to 1.\n        Set it to 6.", "Set zr to 0.1.", "Break.", "Set esc to esc + 1."],
        ],
    },
    // A float that is an affine function of the counter.
    Shape {
        name: "float progressions",
        text: "## To id (x: Int) -> Int:\n    Let xs be [x].\n    Repeat for y in xs:\n        Return y.\n    Return 0.\n\n## Main\nLet mutable ks be [2, 5].\nLet mutable s be 0.0.\nLet mutable sign be 1.0.\n@a@bWhile k @c n:\n    @d\nShow s.\nShow sign.\nShow k.\n",
        holes: &[
            &[
                "Let n be id(9).\nLet mutable k be 0.\n",
                "Let n be id(1).\nLet mutable k be 0.\n",
                "Let n be id(9).\nLet mutable k be -2.\n",
                "Let n be id(9).\nLet mutable k be 0.1.\n",
                "Let n be id(-9007199254740985).\nLet mutable k be -9007199254740993.\n",
                "Let n be id(9007199254740999).\nLet mutable k be 9007199254740991.\n",
            ],
            &["", "Pop from ks into k.\nSet k to n - k.\n", "If n is greater than 1:\n    Set k to n - 5.\n", "Let mutable j be 0.\nWhile j is less than 2:\n    Set j to j + 1.\n    While k is less than n:\n        Set s to s + 2.0 * k + 1.0.\n        Set k to k + 1.\n    Set k to k - 3.\n"],
            &["is less than", "is at most"],
            &[
                "Set s to s + sign / (2.0 * k + 1.0).\n    Set sign to 0.0 - sign.\n    Set k to k + 1.",
                "Set k to k + 1.\n    Set s to s + sign / (2.0 * k + 1.0).",
                "Set s to s + (k * 2.0 + 1.0).\n    Set k to k + 2.",
                "Let d be 1.0 + 3.0 * k.\n    Set s to s + d.\n    Set k to k + 1.\n    Set sign to 3.0 * k + 1.0.",
                "Set s to s + (0.5 * k + 1.0).\n    Set k to k + 1.",
                "Set s to s + (2.0 * k + 1.0) * (3.0 * k + 1.0).\n    Set k to k + 1.",
                "Set s to s + (2.0 * k + 1.0).\n    If k equals 2:\n        Set k to k + 1.\n    Set k to k + 1.",
                "Set s to s + (2.0 * k + 1.0).\n    If k equals 2:\n        Set s to s * (2.0 * k + 1.0).\n        Break.\n    Set k to k + 1.",
                "Set s to s + (2.0 * k - 1.0).\n    Set k to k + 1.",
                "Let mutable kk be k.\n    Set s to s + (2.0 * k + 0.5).\n    Set k to k + 1.\n    Show kk.",
            ],
        ],
    },
    // A list built by an affine function of the position.
    Shape {
        name: "affine tables",
        text: "## To id (x: Int) -> Int:\n    Let xs be [x].\n    Repeat for y in xs:\n        Return y.\n    Return 0.\n\n## Main\nLet n be id(@a).\nLet v be a new Circle with radius 1.\nLet mutable t be a new Seq of @b.\nLet mutable u be [1].\nLet mutable i be @c.\n@dWhile i @e n:\n    @f\nLet mutable p be id(1).\nShow \"built\".\n@gShow item p of t.\nShow item (p + 1) of t.\nShow item 2 of t + item p of t.\nShow i.\nShow u.\n",
        holes: &[
            &["3", "5"],
            &["Int", "Float"],
            &["0", "1"],
            &["", "If n is greater than 2:\n    Set i to 1.\n", "Pop from u into i.\n", "Inspect v:\n    When Circle (r):\n        Set i to r.\n    When Dot:\n        Set i to 0.\n"],
            &["is less than", "is at most"],
            &[
                "Push i * 5 to t.\n    Set i to i + 1.",
                "Set i to i + 1.\n    Push i * 5 to t.",
                "Push 7 to t.\n    Set i to i + 1.",
                "Push 3 - i to t.\n    Push i to u.\n    Set i to i + 1.",
                "Push i to t.\n    Set i to 1 + i.\n    Push i to u.",
                "Push i * i to t.\n    Set i to i + 1.",
                "Push i * n to t.\n    Set i to i + 1.",
                "If i equals 1:\n        Push 99 to t.\n    Push (i + 2) * 3 to t.\n    Set i to i + 1.",
                "Push i to t.\n    Push i to t.\n    Set i to i + 1.",
                "Push 2 * i + n to t.\n    Set i to i + 1.",
                "Push i * 4000000000000000000 to t.\n    Set i to i + 1.",
            ],
            &["", "Set item 2 of t to 50.\n", "Push 3 to t.\n", "Show length of t.\n", "Set i to 1.\n", "Show t.\n", "Repeat for w in t:\n    Push w to u.\n", "If n is greater than 3:\n    Set item 1 of t to 6.\n", "Set t to [4, 5, 6].\n", "Set p to item 1 of t.\nSet p to 1.\n"],
        ],
    },
    Shape {
        name: "affine tables read out of range",
        text: "## To id (x: Int) -> Int:\n    Let xs be [x].\n    Repeat for y in xs:\n        Return y.\n    Return 0.\n\n## Main\nLet n be id(@a).\nLet p be id(@b).\nLet mutable t be a new Seq of Int.\nLet mutable i be 0.\nWhile i is less than n:\n    Push i * 5 to t.\n    Set i to i + 1.\nShow item p of t.\n",
        holes: &[&["0", "2"], &["0", "3"]],
    },
    // Fixed-size lists accessed in constant loops inside a loop.
    Shape {
        name: "fixed-size lists",
        text: "## To id (x: Int) -> Int:\n    Let xs be [x].\n    Repeat for y in xs:\n        Return y.\n    Return 0.\n\n## Main\nLet n be id(@a).\nLet mutable x be a new Seq of @b.\nPush @c to x.\nPush @c to x.\nPush @c to x.\nLet mutable r be 0.\nLet mutable st be 0.\nWhile st is less than n:\n    @d\n    @eSet st to st + 1.\nShow item 1 of x.\nShow item 2 of x.\nShow item 3 of x.\nShow r.\n@f",
        holes: &[
            &["0", "1", "3"],
            &["Float", "Int"],
            &["2.0", "3"],
            &[
                "Repeat for i from 1 to 3:\n        Set item i of x to item i of x + i.",
                "Repeat for i from 1 to 3:\n        Let b be i + 1.\n        Repeat for j from b to 3:\n            Set item j of x to item j of x + item i of x.",
                "Let mutable i be 1.\n    While i is at most 3:\n        Set item i of x to item i of x * 2.\n        Set i to i + 1.",
                "Let mutable i be 0.\n    While i is less than 3:\n        Set r to r + i.\n        Set item (i + 1) of x to item (3 - i) of x + i.\n        Set i to i + 1.",
                "Repeat for i from 2 to 3:\n        Let o be item i of x.\n        Set item i of x to item (i - 1) of x + 1.\n        Set item (i - 1) of x to o.",
                "Repeat for i from 1 to 4:\n        Set r to r + i.\n        Set item i of x to item i of x + 1.",
                "Repeat for i from 3 to 1:\n        Set item i of x to 9.",
                "Repeat for i from 1 to 3:\n        If item i of x is greater than 3:\n            Set item i of x to 1.\n        Otherwise:\n            Set item i of x to item i of x + i.",
            ],
            &["", "Set r to r + 1.\n    ", "Set item 2 of x to st.\n    ", "If st equals 1:\n        Set item 1 of x to 0.\n    "],
            &["", "Show length of x.\n", "Push 1 to x.\nShow x.\n", "Let y be x.\nSet item 1 of x to 5.\nShow y.\nShow x.\n", "Show item (n + 1) of x.\n"],
        ],
    },
    // A list produced by one loop and consumed by the next.
    Shape {
        name: "producer and consumer",
        text: "## Main\nLet mutable src be [3, 1, 2].\nLet mutable k be 10.\nLet mutable s be 0.\nLet mutable t be a new Seq of Int.\n@aRepeat for x in src:\n    @b\n@cRepeat for y in t:\n    @d\nShow s.\nShow k.\n@eShow src.\n",
        holes: &[
            &["", "Push 5 to t.\n"],
            &["Push x * 2 to t.", "If x is greater than 1:\n        Push x to t.", "Set k to k + 1.\n    Push x + k to t.", "Push x to t.\n    Push k to t.", "Push x to t.\n    Set k to k + 1.", "Show x.\n    Push x to t.", "Let z be x + 1.\n    Push z to t.", "If x equals 2:\n        Break.\n    Push x to t.", "Push x + length of t to t.", "Push x / 1 to t.", "Repeat for w from 1 to x:\n        Push w to t.", "Let z be x * 2.\n    Push z to t.\n    Set k to z."],
            &["", "Set k to 20.\n", "Push 4 to src.\n", "Push 6 to t.\n", "Show \"mid\".\n", "Set src to t.\n", "Let m be k * 2.\n", "Let m be 6 / (k - 10).\n"],
            &["Set s to s + y.", "Set s to s + y * k.", "Set k to k - y.", "Push y to src.", "Show y.", "If y equals 4:\n        Break.\n    Set s to s + y.", "Set s to s + length of t.", "Let z be y * 3.\n    Set s to s + z.", "Set s to s + 6 / (y - 1)."],
            &["", "Show t.\n", "Push 1 to t.\nShow t.\n"],
        ],
    },
    // Functions evaluated at compile time.
    Shape {
        name: "calls with known arguments",
        text: "## To f (n: Int) -> Int:\n@a\n## To g (n: Int) and (m: Int) -> Int:\n@b\n## Main\nLet mutable a be 3.\nLet r be f(@c).\nShow r.\nLet q be g(@d, @c).\nShow q.\n@eShow a.\n",
        holes: &[
            &[
                "    If n is at most 1:\n        Return 1.\n    Return n * f(n - 1).\n",
                "    Let mutable s be 0.\n    Let mutable i be 0.\n    While i is less than n:\n        Set s to s + i.\n        Set i to i + 1.\n    Return s.\n",
                "    Show \"in f\".\n    Return n + 1.\n",
                "    If n is less than 2:\n        Return n.\n    Return f(n - 1) + f(n - 2).\n",
                "    Return 12 / (n - 3).\n",
                "    Let mutable xs be [1, 2, 3].\n    Push n to xs.\n    Return item 4 of xs + length of xs.\n",
                "    Let mutable s be n.\n    Repeat for i from 1 to n:\n        If i equals 4:\n            Return s.\n        Set s to s * 10.\n    Return s.\n",
            ],
            &[
                "    If n is greater than m:\n        Return n - m.\n    Return m * 2.\n",
                "    Return f(n) + f(m).\n",
                "    If m equals 0:\n        Return n.\n    Return g(m, n % m).\n",
                "    Let mutable r be n.\n    While r is at least m and r is greater than 0:\n        Set r to r - m * m - 1.\n    Return r.\n",
                "    Let mutable t be 0.\n    If n is greater than 3:\n        Set t to n / m.\n    Return t + n % 3.\n",
                "    Return n / m.\n",
            ],
            &["0", "3", "5", "a", "20"],
            &["0", "4", "a", "-7"],
            &["", "Repeat for i from 1 to 3:\n    Show g(i, 2).\n    Set a to g(a, 3) % 11.\n", "Show f(f(2)) + g(f(1), 3).\n"],
        ],
    },
    // Recursion inside a loop and branching recursion.
    Shape {
        name: "recursion",
        text: "## To f (n: Int) and (d: Int) -> Int:\n    @a\n    Let mutable c be 0.\n    @b\n    Return c@c.\n\n## Main\nRepeat for k from 0 to 3:\n    Show f(k, @d).\nShow f(@e, 1).\n",
        holes: &[
            &["If n is at most 0:\n        Return 1.", "If n is less than 1:\n        Return d.", "If n is less than 1:\n        Show d.\n        Return 2."],
            &[
                "Repeat for i from 1 to 2:\n        Set c to c + f(n - 1, d + i).",
                "Let mutable i be 0.\n    While i is less than 3:\n        If i is not d:\n            Set c to c + f(n - 1, i).\n        Set i to i + 1.",
                "Set c to f(n - 1, d) + f(n - 2, d + 1).",
                "Let l be f(n - 1, c).\n    Set c to l + 1.\n    If l is greater than 2:\n        Set c to c + f(n - 2, l).",
                "Let mutable xs be [n, d].\n    Repeat for x in xs:\n        If x is greater than 1:\n            Set c to c + f(n - 1, 0).\n        Push c to xs.\n    Set c to c + length of xs.",
                "If n is greater than 1:\n        Return f(n - 1, d) + f(n - 2, d).\n    Set c to d.",
            ],
            &["", " + n", " * 2 - d"],
            &["0", "1", "k"],
            &["0", "4", "5"],
        ],
    },
    // Small helpers folded into their callers.
    Shape {
        name: "helpers",
        text: "## To h (a: Int) and (b: Int) -> Int:\n@a\n## Main\nLet mutable a be 6.\nLet mutable b be 4.\nLet mutable c be 0.\nLet mutable i be 0.\nWhile i is less than 3:\n    @b\n    Set i to i + 1.\nShow a.\nShow b.\nShow c.\n",
        holes: &[
            &[
                "    Return a * b + a.\n",
                "    Return a / b.\n",
                "    Let mutable x be a.\n    Let mutable y be b.\n    While y is greater than 0:\n        Let t be x % y.\n        Set x to y.\n        Set y to t.\n    Return x.\n",
                "    Let mutable c be a.\n    If a is greater than b:\n        Set c to b.\n    Return c - a.\n",
                "    Let d be a - b.\n    Let e be d * d.\n    Return e + a.\n",
                "    Let mutable i be 0.\n    While i is less than 4:\n        Set i to i + a * a + 1.\n    Return i % b.\n",
            ],
            &[
                "Set c to h(a, b).",
                "Set c to h(b, a).\n    Set a to c.",
                "Set c to c + h(i, b).",
                "Set c to h(h(a, i + 1), b).",
                "Set a to h(a, b).\n    Set b to h(a, b) + 1.",
                "If i is greater than 0 and h(b, i) is greater than 2:\n        Set c to c + 1.",
                "If i equals 0 or h(b, i) is greater than 2:\n        Set c to c + 1.",
                "Set c to h(b, i) + i.",
                "While h(a, 5) is greater than 3 and b is greater than 0:\n        Set b to b - 1.\n        Set a to a - 1.",
                "Let xs be [h(a, b), h(b, a)].\n    Set c to item 1 of xs + item 2 of xs.",
                "Set b to b - 1.\n    Set c to c + h(a, b) * h(b, b).",
                "Set c to h(a, a) - h(b, b).\n    Set b to i.",
                "Show h(c, h(i + 1, 2)).",
                "Repeat for j from 1 to h(2, 1):\n        Set c to c + j.",
            ],
        ],
    },
    // A branch on the counter against a threshold, in a loop over positions.
    Shape {
        name: "guarded counted loops",
        text: "## To id (x: Int) -> Int:\n    Let xs be [x].\n    Repeat for y in xs:\n        Return y.\n    Return 0.\n\n## Main\nLet n be id(@a).\nLet mutable w be id(@b).\nLet prev be [4, 1, 3, 2, 5, 6].\nLet mutable cur be a new Seq of Int.\nLet mutable k be 0.\nWhile k @c n:\n    Let mutable best be item (k + 1) of prev.\n    If k @d w:\n        Let take be item (@e + 1) of prev + 2.\n        If take is greater than best:\n            Set best to take.\n        @f\n    Push best to cur.\n    Set k to k + 1.\nShow cur.\nShow w.\nShow k.\n",
        holes: &[
            &["0", "3", "5", "6"],
            &["0", "2", "-1", "9"],
            &["is less than", "is at most"],
            &["is at least", "is greater than", "is less than", "equals"],
            &["k - w", "k", "w", "k % 3"],
            &["Set best to best + 1.", "Set w to w + 1.", "Set k to k + 1.", "Show best.", "Push 0 to cur."],
        ],
    },
];

pub fn cases(s: &Shape) -> Vec<TextCase> {
    let mut out = vec![];
    let mut ix = vec![0usize; s.holes.len()];
    loop {
        let mut t = s.text.to_string();
        // Twice: a filling may itself have holes.
        for (h, &i) in ix.iter().enumerate().chain(ix.iter().enumerate()) {
            t = t.replace(&format!("@{}", (b'a' + h as u8) as char), s.holes[h][i]);
        }
        let key: Vec<String> = ix.iter().map(|i| i.to_string()).collect();
        out.push(TextCase { key: format!("{}/{}", s.name, key.join(".")), src: format!("{DEFS}{t}") });
        let mut k = 0;
        loop {
            if k == ix.len() {
                return out;
            }
            ix[k] += 1;
            if ix[k] < s.holes[k].len() {
                break;
            }
            ix[k] = 0;
            k += 1;
        }
    }
}

/// A collection reachable under two names, changed through one of them: kind of collection, how
/// the second name came about, what is changed through which name, and where the code stands.
pub fn shared() -> Vec<TextCase> {
    // Type, initial value, changes of `@t`.
    const KINDS: &[(&str, &str, &str, &[&str])] = &[
        ("Seq of Int", "[1, 2, 3]", "", &["Push 9 to @t.", "Set item 1 of @t to 7.", "Pop from @t.", "poke(@t).", "Let q be drop(@t).", "Repeat for e in @t:\n    Push e to @t."]),
        ("Seq of Text", "[\"p\", \"q\"]", "", &["Push \"r\" to @t.", "Set item 1 of @t to \"z\".", "Pop from @t."]),
        ("Seq of Float", "[0.5, 1.5]", "", &["Push 2.5 to @t.", "Set item 2 of @t to 7.5."]),
        ("Seq of Seq of Int", "[[1, 2], [3]]", "", &["Push [9] to @t.", "Push 9 to item 1 of @t.", "Set item 1 of (item 1 of @t) to 8.", "Set item 2 of @t to [5, 6].", "Let mutable r be item 1 of @t.\nPush 7 to r."]),
        ("Map of Text to Int", "a new Map of Text to Int", "Set item \"a\" of x to 1.\n", &["Set item \"a\" of @t to 9.", "Set item \"z\" of @t to 9.", "Remove \"a\" from @t."]),
        ("Map of Int to Int", "a new Map of Int to Int", "Set item 1 of x to 1.\n", &["Set item 1 of @t to 9.", "Set item 5 of @t to 9.", "Remove 1 from @t."]),
        ("Map of Int to Seq of Int", "a new Map of Int to Seq of Int", "Set item 1 of x to [4].\n", &["Push 5 to item 1 of @t.", "Set item 1 of (item 1 of @t) to 3.", "Set item 2 of @t to [6]."]),
        ("Set of Int", "a new Set of Int", "Add 1 to x.\n", &["Add 9 to @t.", "Remove 1 from @t."]),
        ("Set of Text", "a new Set of Text", "Add \"p\" to x.\n", &["Add \"q\" to @t.", "Remove \"p\" from @t."]),
        ("Part", "a new Part with n 1 and xs [1, 2]", "", &["Set @t's n to 9.", "Push 4 to @t's xs.", "Set @t's xs to [6]."]),
    ];
    const NAMES: &[&str] = &[
        "Let mutable y be x.",
        "Let mutable y be @n.\nSet y to x.",
        "Let mutable y be same(x).",
        "Let mutable y be kept(x).",
        "Let box be [x].\nLet mutable y be item 1 of box.",
        "Let mutable box be [x].\nPush x to box.\nLet mutable y be item 2 of box.",
        "Let mutable y be x.\nLet z be x.",
        "Let mutable y be x.\nLet z be y.",
        "Let mutable mp be a new Map of Int to @k.\nSet item 1 of mp to x.\nLet mutable y be item 1 of mp.",
        "Let mutable y be copy of x.",
        "Let h be a new Holder with part x.\nLet mutable y be h's part.",
        "Let mutable y be x.\nIf length of \"ab\" is greater than 1:\n    Set y to same(y).",
        "Let mutable y be x.\nSet x to y.",
    ];
    let mut out = vec![];
    for (k, (ty, init, more, changes)) in KINDS.iter().enumerate() {
        for (n, name) in NAMES.iter().enumerate() {
            // Two changes, each through either name.
            let steps: Vec<String> = changes.iter().flat_map(|c| ["x", "y"].map(|t| c.replace("@t", t))).collect();
            let mut words: Vec<Vec<usize>> = (0..steps.len()).map(|i| vec![i]).collect();
            words.extend((0..steps.len()).flat_map(|i| (0..steps.len()).filter(move |j| (i ^ j) & 1 == 1).map(move |j| vec![i, j])));
            for w in words {
                let body: String = w.iter().map(|&i| format!("{}\n", steps[i])).collect();
                let show = if *ty == "Part" {
                    "Show x's n.\nShow x's xs.\nShow y's n.\nShow y's xs.\n".to_string()
                } else if ty.starts_with("Map") {
                    let keys: &[&str] = if ty.contains("Text") { &["\"a\"", "\"z\""] } else { &["1", "2", "5"] };
                    ["x", "y"].iter().map(|v| format!("Show length of {v}.\n{}", keys.iter().map(|q| format!("If {v} contains {q}:\n    Show item {q} of {v}.\n")).collect::<String>())).collect()
                } else {
                    "Show x.\nShow y.\n".to_string()
                };
                let code = format!("Let mutable x be {init}.\n{more}{}\n{body}{show}", name.replace("@k", ty).replace("@n", init));
                let indent = |s: &str| s.lines().map(|l| format!("    {l}\n")).collect::<String>();
                let seq = if *ty == "Seq of Int" {
                    "## To poke (s: mutable Seq of Int):\n    Push 6 to s.\n\n## To drop (s: Seq of Int) -> Int:\n    Let mutable r be s.\n    Pop from r.\n    Return length of r.\n\n"
                } else { "" };
                let defs = format!("## A Part has:\n    An n: Int.\n    An xs: Seq of Int.\n\n## A Holder has:\n    A part: {ty}.\n\n{seq}## To same (v: {ty}) -> {ty}:\n    Return v.\n\n## To kept (v: {ty}) -> {ty}:\n    Let mutable r be v.\n    Return r.\n\n");
                for (c, src) in [
                    format!("{defs}## Main\n{code}"),
                    format!("{defs}## To go:\n{}\n## Main\ngo().\ngo().\n", indent(&code)),
                    format!("{defs}## Main\nRepeat for round from 1 to 2:\n{}", indent(&code)),
                ].into_iter().enumerate() {
                    out.push(TextCase { key: format!("shared/{k}/{n}/{w:?}/c{c}"), src });
                }
            }
        }
    }
    out
}

/// A name bound twice, with the inner binding of every kind, written or not, in either order of use.
pub fn rebound() -> Vec<TextCase> {
    const OUTER: &[&str] = &["Let x be 5.", "Let mutable x be 5.", "Let x be plain(5).", "Let mutable x be plain(5).", "Let x be \"t\".", "Let x be 2.5."];
    // `@i` stands for what is done inside.
    const INNER: &[&str] = &[
        "Repeat for x in [1, 2]:\n    @i", "Repeat for (x, y) in [(3, 4)]:\n    @i", "Repeat for x from 1 to 2:\n    @i", "Inspect v:\n    When Circle (x):\n        @i\n    When Dot:\n        Show 0.",
        "If w is greater than 0:\n    Let x be 8.\n    @i", "If w is greater than 0:\n    Let mutable x be 8.\n    @i", "Let mutable g be 0.\nWhile g is less than 2:\n    Let x be g.\n    @i\n    Set g to g + 1.",
        "Inside a zone called \"Z\":\n    Let x be 8.\n    @i", "If w is greater than 0:\n    @i", "Let mutable g be 0.\nWhile g is less than 2:\n    @i\n    Set g to g + 1.", "Inspect v:\n    When Circle (r):\n        @i\n    When Dot:\n        Show 0.",
        "Inside a zone called \"Z\":\n    @i", "Let f be (x: Int) -> x + 1.\nShow f(1).", "Let x be 9.", "Let mutable x be 9.", "Pop from ys into x.", "Repeat for (a, x) in [(3, 4)]:\n    @i", "Repeat for (a, x) in mp:\n    @i", "Show next(6).", "Attempt all of the following:\n    @i", "Repeat for q in ys:\n    @i",
    ];
    const WITHIN: &[&str] = &["Show x.", "Set x to 3.", "Set x to 3.\nShow x.", "Set y to x.", "Show x.\nSet x to 3.", "Let x be 1.\nShow x.", "Set x to x + w.", "Repeat for x in [7]:\n    Show x.", "If w is greater than 0:\n    Set x to 4."];
    const AFTER: &[&str] = &["Show x.", "Set x to 6.\nShow x.", "Show y."];
    let mut out = vec![];
    for (a, outer) in OUTER.iter().enumerate() {
        for (b, inner) in INNER.iter().enumerate() {
            for (c, within) in WITHIN.iter().enumerate() {
                if !inner.contains("@i") && c > 0 {
                    continue;
                }
                for (d, after) in AFTER.iter().enumerate() {
                    let pad = inner.lines().find(|l| l.contains("@i")).map_or(0, |l| l.len() - l.trim_start().len());
                    let within = within.replace('\n', &format!("\n{}", " ".repeat(pad)));
                    let body = format!("{outer}\nLet mutable y be 0.\n{}\n{after}\n", inner.replace("@i", &within));
                    let pre = "Let v be a new Circle with radius 4.\nLet mutable ys be [7, 8].\nLet mutable mp be a new Map of Int to Int.\nSet item 1 of mp to 2.\nLet w be plain(1).\n";
                    let defs = format!("{DEFS}## To plain (q: Int) -> Int:\n    Repeat for z in [q]:\n        Return z.\n    Return 0.\n\n## To next (x: Int) -> Int:\n    Let y be x + 1.\n    Return y.\n\n");
                    out.push(TextCase { key: format!("rebound/{a}.{b}.{c}.{d}/main"), src: format!("{defs}## Main\n{pre}{body}") });
                    let f: String = format!("{pre}{body}").lines().map(|l| format!("    {l}\n")).collect();
                    out.push(TextCase { key: format!("rebound/{a}.{b}.{c}.{d}/function"), src: format!("{defs}## To go:\n{f}\n## Main\ngo().\n") });
                }
            }
        }
    }
    out
}

/// Loops over lists that run often enough to be compiled and then meet other bounds, shorter
/// lists or other starting points than those they were compiled for.
pub fn inner_loops() -> Vec<TextCase> {
    const EVENT: &[&str] = &["", "Set lo to lo - 1.", "Set lo to 0 - 3.", "Set hi to hi + 1.", "Set hi to 50.", "Pop from xs.", "Set xs to [5].", "Push 8 to xs.", "Set xs to ys.", "Set item 1 of xs to 9223372036854775800.", "Set lo to 4611686018427387904 * 4.", "Set hi to lo - 1."];
    const LOOP: &[&str] = &["Let mutable k be lo.\n    While k is at most hi:\n        @u\n        Set k to k + 1.", "Let mutable k be lo.\n    While k is less than hi:\n        @u\n        Set k to k + 1.", "Let mutable k be hi.\n    While k is at least lo:\n        @u\n        Set k to k - 1.", "Repeat for k from lo to hi:\n        @u", "Let mutable k be lo.\n    While k is at most (length of xs):\n        @u\n        Set k to k + 1.", "Let mutable k be lo.\n    While k is at most hi:\n        @u\n        Set k to k + 2."];
    const USE: &[&str] = &["Set s to s + (item k of xs).", "Set item k of xs to (item k of xs) + 1.", "Set s to s + (item (k + 1) of xs).", "Set s to s + (item (k - 1) of xs).", "Set item k of xs to s % 7.\n        Set s to s + (item k of ys).", "If item k of xs is greater than s % 3:\n            Set s to s + 1.", "Set item (k + 1) of xs to item k of xs.", "Set s to s + (item k of (item 1 of g)).", "Push (item k of xs) to out.\n        Set s to s + (length of out).", "Set s to s + 3037000500 * (item k of xs)."];
    const BOUNDS: &[(i64, i64)] = &[(1, 3), (2, 3), (1, 4)];
    let mut out = vec![];
    for (a, e) in EVENT.iter().enumerate() {
        for (b, l) in LOOP.iter().enumerate() {
            for (c, u) in USE.iter().enumerate() {
                for (d, (lo, hi)) in BOUNDS.iter().enumerate() {
                    let ev = if e.is_empty() { String::new() } else { format!("    If r equals 61:\n        {e}\n") };
                    let src = format!("## Main\nLet mutable xs be [1, 2, 3, 4].\nLet mutable ys be [7, 8, 9, 6].\nLet mutable g be [[1, 2, 3, 4], [5]].\nLet mutable out be [0].\nLet mutable lo be {lo}.\nLet mutable hi be {hi}.\nLet mutable s be 0.\nLet mutable r be 0.\nWhile r is less than 70:\n{ev}    {}\n    Set s to s % 1000003.\n    Set r to r + 1.\nShow s.\nShow xs.\nShow ys.\nShow length of out.\n", l.replace("@u", u));
                    out.push(TextCase { key: format!("inner/{a}.{b}.{c}.{d}"), src });
                }
                // The loop in a function, over lists it is given.
                if u.contains("of g)") || u.contains("Push") {
                    continue;
                }
                for (d, (len, calls, at)) in [(4, 70, 61), (140, 6, 4)].into_iter().enumerate() {
                    let e = e.replace("50.", "500.");
                    let ev = if e.is_empty() { String::new() } else { format!("    If r equals {at}:\n        {e}\n") };
                    let kind = if u.contains("Set item") { "mutable " } else { "" };
                    let head = format!("## To walk (xs: {kind}Seq of Int, ys: Seq of Int, lo: Int, hi: Int) -> Int:\n    Let mutable s be 0.\n    {}\n    Return s % 1000003.\n\n", l.replace("@u", u));
                    let src = format!("{head}## Main\nLet mutable xs be [0].\nLet mutable ys be [7].\nLet mutable q be 1.\nWhile q is less than {len}:\n    Push q % 11 to xs.\n    Push q % 7 to ys.\n    Set q to q + 1.\nLet mutable lo be 1.\nLet mutable hi be {}.\nLet mutable s be 0.\nLet mutable r be 0.\nWhile r is less than {calls}:\n{ev}    Set s to s + walk(xs, ys, lo, hi).\n    Set r to r + 1.\nShow s.\nShow xs.\nShow ys.\n", len - 1);
                    out.push(TextCase { key: format!("inner/{a}.{b}.{c}/call{d}"), src });
                }
            }
        }
    }
    out
}

/// Value semantics in the places where they are known to break, with what should be printed.
pub fn values_apart() -> Vec<(TextCase, Vec<String>)> {
    const PART: &str = "## A Part has:\n    An n: Int.\n    An xs: Seq of Int.\n\n## Main\nLet mutable x be a new Part with n 1 and xs [1, 2].\n";
    let case = |key: &str, src: String, out: &[&str]| (TextCase { key: format!("values apart/{key}"), src }, out.iter().map(|l| l.to_string()).collect());
    vec![
        case("element of a list in a record", format!("{PART}Set item 1 of x's xs to 8.\nShow x's xs.\n"), &["[8, 2]"]),
        case("set and map in a record", "## A Bag has:\n    A s: Set of Int.\n    An m: Map of Int to Int.\n\n## Main\nLet st be a new Set of Int.\nLet mm be a new Map of Int to Int.\nLet mutable x be a new Bag with s st and m mm.\nAdd 1 to x's s.\nAdd 2 to x's s.\nRemove 1 from x's s.\nSet item 4 of x's m to 8.\nShow x's s.\nShow item 4 of x's m.\n".into(), &["{2}", "8"]),
        case("list in a copied record", format!("{PART}Let mutable y be x.\nPush 5 to y's xs.\nShow x's xs.\nShow y's xs.\n"), &["[1, 2]", "[1, 2, 5]"]),
        case("mutable argument with a second name", "## To poke (s: mutable Seq of Int):\n    Push 6 to s.\n\n## Main\nLet mutable x be [1].\nLet mutable y be x.\npoke(x).\nShow x.\nShow y.\n".into(), &["[1, 6]", "[1]"]),
        case("number in a copied record", format!("{PART}Let mutable y be x.\nSet y's n to 5.\nSet y's xs to [7].\nShow x's n.\nShow x's xs.\nShow y's n.\nShow y's xs.\n"), &["1", "[1, 2]", "5", "[7]"]),
        case("list taken out of a record", format!("{PART}Let mutable l be x's xs.\nPush 5 to l.\nShow x's xs.\nShow l.\n"), &["[1, 2]", "[1, 2, 5]"]),
        case("list put into a record", format!("{PART}Let mutable l be [3].\nSet x's xs to l.\nPush 5 to l.\nShow x's xs.\nShow l.\n"), &["[3]", "[3, 5]"]),
        case("row taken out of a grid", "## Main\nLet mutable g be [[1], [2]].\nLet mutable r be item 1 of g.\nPush 5 to r.\nSet item 1 of r to 9.\nShow g.\nShow r.\n".into(), &["[[1], [2]]", "[9, 5]"]),
        case("row of a copied grid", "## Main\nLet mutable g be [[1], [2]].\nLet mutable h be g.\nPush 5 to item 1 of h.\nSet item 1 of (item 2 of h) to 9.\nShow g.\nShow h.\n".into(), &["[[1], [2]]", "[[1, 5], [9]]"]),
    ]
}
