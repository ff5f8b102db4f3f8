//! Small worlds of one kind of data each: an initial state, an alphabet of statements, and what
//! is shown at the end. Programs are all words over the alphabet, placed in several surroundings.

pub struct World {
    pub name: &'static str,
    pub decls: &'static str,
    pub init: &'static [&'static str],
    pub alpha: &'static [&'static str],
    /// Shown at the end.
    pub fin: &'static [&'static str],
    /// An Int that depends on the state.
    pub ret: &'static str,
}

pub const WORLDS: &[World] = &[
    World {
        name: "float",
        decls: "## To mean (p: Float, q: Float) -> Float:\n    Return (p + q) / 2.0.\n",
        init: &["Let mutable f be 1.5.", "Let mutable g be 0.25.", "Let mutable n be 3.", "Let mutable h be true."],
        alpha: &[
            "Set f to f + g.", "Set g to g * 1.5.", "Set f to f - 0.1.", "Set g to f / g.", "Set f to n * g.", "Set g to g - n.",
            "Set h to f > g.", "Set h to f is at most 2.0.", "Set h to f == g.", "Set f to mean(f, g).", "Set f to n.", "Set n to n + 1.",
            "If h:\n    Set g to g + 0.5.", "If f < 0.0:\n    Set f to 0.0 - f.", "Set f to f + 1.0e10.", "Set g to 1.0 / 3.0.", "Set g to g * g.",
            "Set f to abs(g).", "Set f to sqrt(abs(g)).", "Set n to floor(f).", "Set f to min(f, g).", "Set f to max(f, 2.0).",
            "Set f to f / 4.", "Set f to f * 0.0.", "Set g to 0.0 - g.",
        ],
        fin: &["f", "g", "n", "h", "\"{f:.3} {g:.1}\""],
        ret: "n",
    },
    World {
        name: "text",
        decls: "## To tag (s: Text) -> Text:\n    Return \"<\" + s + \">\".\n",
        init: &["Let mutable s be \"ab\".", "Let mutable t be \"\".", "Let mutable n be 2."],
        alpha: &[
            "Set s to s + \"c\".", "Set t to s.", "Set t to t + s.", "Set s to t combined with \"x\".", "Set n to length of s.",
            "Set t to \"{s}-{n}\".", "Set t to \"{n}\".", "If s equals \"ab\":\n    Set n to n + 10.", "If s contains \"c\":\n    Set n to n + 7.",
            "Set t to item 1 of s.", "Set s to \"h\u{e9}l\".", "Set s to tag(s).",
            "Repeat for ch in s:\n    Set t to ch + t.", "Set s to \"\".", "Set t to \"{s:>5}|\".", "Set t to \"{s:<4}|{n:^5}|\".",
            "Set s to s + n.", "If length of t > 20:\n    Set t to \"\".",
        ],
        fin: &["s", "t", "n"],
        ret: "n + (length of s) + (length of t)",
    },
    World {
        name: "map",
        decls: "## To look (m: Map of Text to Int) -> Int:\n    If m contains \"b\":\n        Return item \"b\" of m.\n    Return 0.\n",
        init: &["Let mutable m be a new Map of Text to Int.", "Let mutable n be 1.", "Let mutable w be a new Map of Text to Int."],
        alpha: &[
            "Set item \"a\" of m to n.", "Set item \"b\" of m to 5.", "Set m at \"c\" to n + 2.", "Set n to n + 1.", "Set n to length of m.",
            "If m contains \"a\":\n    Set n to n + (item \"a\" of m).", "If m contains \"b\":\n    Set item \"b\" of m to (item \"b\" of m) + 1.",
            "Set w to m.", "Set item \"a\" of w to 100.", "Set n to look(m).", "Repeat for (q, x) in m:\n    Set n to n + x.",
            "Set m to w.", "Set m to a new Map of Text to Int.", "Let key be \"k{n}\".\nSet item key of m to n.", "If not (m contains \"c\"):\n    Set n to n * 2.",
            "Remove \"a\" from m.", "Set n to n % 1000.",
        ],
        fin: &["n", "length of m", "length of w", "look(m)", "look(w)", "m contains \"a\"", "w contains \"a\""],
        ret: "n + (length of m) * 3 + (length of w)",
    },
    World {
        name: "intmap",
        decls: "",
        init: &["Let mutable m be a new Map of Int to Int.", "Let mutable n be 1.", "Let mutable a be 7."],
        alpha: &[
            "Set item n of m to a.", "Set item (n + 1) of m to n.", "Set m at (k % 5) to k.", "Set n to n + 1.", "Set n to length of m.",
            "If m contains n:\n    Set a to item n of m.", "If m contains (k % 5):\n    Set item (k % 5) of m to (item (k % 5) of m) + 1.",
            "Set a to a * 3 - n.", "Repeat for (q, x) in m:\n    Set a to a + q * x.", "Set n to n % 4.", "Set a to a % 997.",
            "Set item (0 - n) of m to 4.", "Set m to a new Map of Int to Int.", "If not (m contains a):\n    Set n to n + 3.", "Set item (n * 1000000007) of m to n.",
        ],
        fin: &["n", "a", "length of m", "m contains 1", "m contains (0 - 1)"],
        ret: "n + a + (length of m)",
    },
    World {
        name: "set",
        decls: "",
        init: &["Let mutable s be a new Set of Int.", "Let mutable r be a new Set of Int.", "Let mutable n be 1."],
        alpha: &[
            "Add n to s.", "Add 5 to s.", "Add (k % 3) to r.", "Remove 5 from s.", "Remove n from s.", "Set n to n + 1.", "Set n to length of s.",
            "If s contains 5:\n    Set n to n + 2.", "Set r to s.", "Set s to s union r.", "Set s to s intersection r.", "Set r to s - r.", "Set s to s | r.",
            "Set r to s ^ r.", "Repeat for x in s:\n    Set n to n + x.", "Add n to r.", "Set n to n % 50.", "Set s to a new Set of Int.",
        ],
        fin: &["n", "s", "r", "length of s", "length of r"],
        ret: "n + (length of s) * 7 + (length of r)",
    },
    World {
        name: "record",
        decls: "## A Point has:\n    An x: Int.\n    A y: Int.\n\n## A Box has:\n    A corner: Point.\n    A tags: Seq of Int.\n\n## To shift (p: Point) -> Point:\n    Let mutable q be p.\n    Set q's x to q's x + 1.\n    Return q.\n",
        init: &["Let mutable p be a new Point with x 1 and y 2.", "Let mutable q be a new Point with x 5 and y 6.", "Let mutable n be 0.", "Let mutable b be a new Box with corner p and tags [1, 2]."],
        alpha: &[
            "Set p's x to p's x + 1.", "Set q's y to p's x + n.", "Set q to p.", "Set n to n + p's x.", "Set p to shift(p).", "Set q to shift(p).",
            "Set b's corner to q.", "Set p to b's corner.", "Set n to b's corner's y.", "Push n to b's tags.", "Set n to length of b's tags.", "Set n to n + (item 1 of b's tags).",
            "Set p to a new Point with x n and y 9.", "Set p to a new Point.", "If p's x > q's x:\n    Set q's x to p's x.", "Let c be b.\nPush 4 to c's tags.", "Let c be copy of p.\nSet p's y to 70.\nSet n to n + c's y.",
            "Set n to n % 100.",
        ],
        fin: &["p's x", "p's y", "q's x", "q's y", "n", "b's corner's x", "b's tags"],
        ret: "n + p's x * 3 + q's y",
    },
    World {
        name: "variant",
        decls: "## A Shape is one of:\n    A Circle with radius Int.\n    A Rect with w Int and h Int.\n    A Dot.\n\n## To area (s: Shape) -> Int:\n    Inspect s:\n        When Circle (r):\n            Return r * r * 3.\n        When Rect (w, h):\n            Return w * h.\n        When Dot:\n            Return 1.\n    Return 0.\n",
        init: &["Let mutable s be a new Circle with radius 2.", "Let mutable t be a new Dot.", "Let mutable n be 4."],
        alpha: &[
            "Set s to a new Rect with w n and h 3.", "Set s to a new Circle with radius n.", "Set s to a new Dot.", "Set t to s.", "Set n to area(s).", "Set n to n + area(t).",
            "Inspect s:\n    When Circle (r):\n        Set n to n + r.\n    Otherwise:\n        Set n to n + 100.", "Inspect t:\n    When Rect (a, b):\n        Set n to a - b.\n    When Circle (r):\n        Set n to r.\n    When Dot:\n        Set n to n + 1.",
            "Set n to n % 11.", "If s equals t:\n    Set n to n + 50.", "Inspect s:\n    When Rect (a, b):\n        Set t to a new Circle with radius a.\n    When Circle (r):\n        Set t to a new Rect with w r and h r.\n    When Dot:\n        Set t to a new Dot.",
        ],
        fin: &["n", "area(s)", "area(t)", "s", "t"],
        ret: "n + area(s) + area(t)",
    },
    World {
        name: "option",
        decls: "## To find (n: Int) -> Option of Int:\n    If n > 3:\n        Return some (n * 2).\n    Return none.\n",
        init: &["Let mutable o be some 3.", "Let mutable n be 1.", "Let mutable p be find(1)."],
        alpha: &[
            "Set o to some n.", "Set o to find(n).", "Set p to o.", "Set n to n + 2.",
            "Set n to n % 9.", "Set p to none.",
        ],
        fin: &["n", "o", "p"],
        ret: "n",
    },
    World {
        name: "nested",
        decls: "## To total (g: Seq of Seq of Int) -> Int:\n    Let mutable t be 0.\n    Repeat for row in g:\n        Repeat for x in row:\n            Set t to t + x.\n    Return t.\n",
        init: &["Let mutable g be [[1, 2], [3, 4]].", "Let mutable r be [9].", "Let mutable n be 1."],
        alpha: &[
            "Push r to g.", "Push n to r.", "Set r to item 1 of g.", "Set item 2 of g to r.", "Set item 1 of (item 1 of g) to n.", "Set n to item 2 of (item 1 of g).", "Set n to total(g).",
            "Set n to length of g.", "Let c be g.\nPush [n] to c.\nSet n to n + (length of c).", "Repeat for row in g:\n    Set n to n + (length of row).", "Set n to n % 13.", "Set g to [r, r].", "Push 8 to item 1 of g.", "Pop from r.\nPush 1 to r.",
        ],
        fin: &["n", "g", "r", "total(g)"],
        ret: "n + (length of g) + (length of r)",
    },
    World {
        name: "tuple",
        decls: "## To swap (p: Int, q: Int) -> Int:\n    Let t be (q, p).\n    Return (item 1 of t) * 10 + (item 2 of t).\n",
        init: &["Let mutable t be (1, 2).", "Let mutable n be 3.", "Let mutable u be (4, 5)."],
        alpha: &["Set t to (n, item 1 of t).", "Set n to item 2 of t.", "Set u to t.", "Set n to n + (item 1 of u).", "Set n to swap(n, 2).", "Set t to u.", "Set n to n % 30.", "If t equals u:\n    Set n to n + 1.", "Set u to (item 2 of u, n + 1)."],
        fin: &["n", "t", "u", "item 1 of t"],
        ret: "n + (item 1 of t) + (item 2 of u)",
    },
    World {
        name: "closure",
        decls: "## To apply (f: fn(Int) -> Int) and (x: Int) -> Int:\n    Return f(x).\n\n## To adder (n: Int) -> fn(Int) -> Int:\n    Return (x: Int) -> x + n.\n",
        init: &["Let mutable n be 2.", "Let mutable a be 5.", "Let inc be (x: Int) -> x + 1.", "Let mul be (x: Int) -> x * a."],
        alpha: &["Set n to inc(n).", "Set n to mul(n).", "Set a to a + 1.", "Set n to apply(inc, n).", "Set n to apply(mul, a).", "Let add be adder(n).\nSet a to add(3).", "Set n to n % 17.", "Set n to apply((x: Int) -> x - a, n).", "Let c be (x: Int, y: Int) -> x * 2 + y.\nSet a to c(n, a).", "Set a to a % 19."],
        fin: &["n", "a", "mul(1)", "inc(a)"],
        ret: "n + a * 3",
    },
    World {
        name: "alias",
        decls: "## To grow (s: Seq of Int) -> Seq of Int:\n    Let mutable r be s.\n    Push 7 to r.\n    Return r.\n\n## To first (s: Seq of Int) -> Int:\n    Let mutable r be s.\n    Set item 1 of r to (item 1 of r) + 1.\n    Return (item 1 of r) * 10 + (item 1 of s).\n\n## To bump (s: mutable Seq of Int):\n    Set item 1 of s to (item 1 of s) + 1.\n\n## To keep (s: Seq of Int, n: Int) -> Seq of Int:\n    Let mutable r be s.\n    Set item 2 of r to n.\n    Return r.\n",
        init: &["Let mutable xs be [1, 2].", "Let mutable ys be [3, 4].", "Let mutable n be 0."],
        alpha: &[
            "Set ys to xs.", "Set xs to ys.", "Push 5 to xs.", "Set item 1 of xs to n.", "Set item 2 of ys to 6.", "Set xs to grow(xs).", "Set ys to grow(xs).", "Set n to first(xs).",
            "bump(xs).", "Set n to item 1 of ys.", "Set ys to keep(xs, n).", "Set xs to keep(xs, 8).", "Let zs be xs.\nSet item 1 of zs to 50.", "Let zs be copy of ys.\nPush 1 to zs.\nSet n to length of zs.", "Pop from xs.\nPush 3 to xs.",
            "Let zs be xs.\nSet item 2 of xs to 60.\nSet n to item 2 of zs.", "If length of xs > 6:\n    Set xs to [1, 2].", "Set n to n % 40.", "Set n to n + (item 1 of xs).", "Let c be item 2 of xs.\nSet n to n + c.",
        ],
        fin: &["xs", "ys", "n"],
        ret: "n + (length of xs) + (item 1 of xs) * 3 + (item 2 of ys)",
    },
    World {
        name: "boollist",
        decls: "",
        init: &["Let mutable bs be [true, false, true].", "Let mutable fs be [0.5, 1.5].", "Let mutable n be 1.", "Let mutable ts be [\"a\", \"b\"]."],
        alpha: &[
            "Set item 2 of bs to item 1 of bs.", "Push (n > 2) to bs.", "If item 3 of bs:\n    Set n to n + 1.", "Set item 1 of bs to not (item 1 of bs).", "Push 2.5 to fs.", "Set item 1 of fs to (item 1 of fs) * 1.5.",
            "Repeat for f in fs:\n    If f > 1.0:\n        Set n to n + 1.", "Push \"c\" to ts.", "Set item 1 of ts to (item 2 of ts) + \"z\".", "Set n to n + (length of ts).", "Set n to (length of bs) + (length of fs).",
            "Set item (n % 2 + 1) of fs to n.", "Repeat for b in bs:\n    If not b:\n        Set n to n + 2.", "Set n to n % 21.", "If ts contains \"b\":\n    Set n to n + 4.", "If length of bs > 9:\n    Set bs to [false, true, false].", "If length of item 1 of ts > 4:\n    Set item 1 of ts to \"q\".",
        ],
        fin: &["bs", "fs", "ts", "n"],
        ret: "n + (length of bs)",
    },
    World {
        name: "word",
        decls: "## To mix (p: Word32, q: Word32) -> Word32:\n    Return (p + q) ^ (p * q).\n",
        init: &["Let mutable a be word32(4294967295).", "Let mutable b be word32(7).", "Let mutable c be word64(5).", "Let mutable n be 3."],
        alpha: &[
            "Set a to a + b.", "Set a to a * b.", "Set b to b - a.", "Set b to a ^ b.", "Set a to word_and(a, b).", "Set b to word_or(a, b).", "Set b to word_not(b).", "Set a to word32Shr(a, 4).", "Set c to word64Shl(c, 9).", "Set c to word64And(c, word64(1023)).", "Set n to intOfWord32(b).", "Set a to a shifted left by 5.", "Set b to b shifted right by 3.",
            "Set a to mix(a, b).", "Set c to c * c + c.", "Set c to c shifted left by 7.", "If a equals b:\n    Set n to n + 1.", "Set a to rotl(a, 9).", "Set n to n * 3 - 1.", "Set n to n % 1000.", "Set a to word32(n).",
        ],
        fin: &["a", "b", "c", "n"],
        ret: "n",
    },
    World {
        name: "control",
        decls: "## To search (xs: Seq of Int, t: Int) -> Int:\n    Let mutable i be 1.\n    Repeat for x in xs:\n        If x == t:\n            Return i.\n        Set i to i + 1.\n    Return 0.\n\n## To isev (n: Int) -> Bool:\n    If n == 0:\n        Return true.\n    Return isod(n - 1).\n\n## To isod (n: Int) -> Bool:\n    If n == 0:\n        Return false.\n    Return isev(n - 1).\n\n## To fact (n: Int) -> Int:\n    If n < 2:\n        Return 1.\n    Return n * fact(n - 1).\n\n## To sumto (n: Int, acc: Int) -> Int:\n    If n == 0:\n        Return acc.\n    Return sumto(n - 1, acc + n).\n\n## To noisy (n: Int) -> Bool:\n    Show \"noisy {n}\".\n    Return n > 2.\n",
        init: &["Let mutable n be 4.", "Let mutable a be 1.", "Let mutable xs be [4, 2, 9]."],
        alpha: &[
            "Set n to search(xs, n).", "If isev(n % 6):\n    Set a to a + 1.\nOtherwise:\n    Set a to a + 10.", "Set a to fact(n % 7).", "Set a to sumto(n % 20, a).", "If noisy(n) and noisy(a):\n    Set n to 0.", "If noisy(n) or noisy(a):\n    Set a to 2.",
            "While n < 9:\n    Set n to n + 2.\n    If n is odd:\n        Break.", "Repeat for i from 3 to 1:\n    Set a to 99.", "Repeat for i from n to n + 2:\n    Set a to a + i.", "Repeat for x in xs:\n    If x > 8:\n        Break.\n    Push x to xs.",
            "If a is between 2 and 20:\n    Set a to a + 3.\nelif n > 4:\n    Set a to 0.\nOtherwise:\n    Set n to 7.", "If 1 <= n < 5:\n    Set n to n + 5.", "Set a to a % 1000.", "If n is divisible by 3:\n    Set n to n + 1.", "If length of xs > 12:\n    Set xs to [4, 2, 9].", "Let a be 5.\nSet n to n + a.",
        ],
        fin: &["n", "a", "xs"],
        ret: "n + a + (length of xs)",
    },
    World {
        name: "exact",
        decls: "",
        init: &["Let mutable r: Rational be 1.", "Let mutable q: Rational be 1 / 3.", "Let mutable n be 2.", "Let mutable big be 9007199254740993."],
        alpha: &["Set r to r + q.", "Set q to q * r.", "Set r to r / q.", "Set q to q - r.", "Set n to n + 1.", "Set r to r * n.", "Set big to big * big.", "Set big to big - n.", "Set big to big / 7.", "Set big to big % 1000003.", "Set big to big % 1048576.", "Set big to big / 8.", "If r > q:\n    Set n to n + 5.", "If big > 100:\n    Set n to n + 1."],
        fin: &["r", "q", "n", "big"],
        ret: "n",
    },
    World {
        name: "numbers",
        decls: "",
        init: &["Let mutable d be decimal(\"1.10\").", "Let mutable c be complex(1, 2).", "Let mutable m be modular(5, 7).", "Let mutable n be 3."],
        alpha: &["Set d to d + decimal(\"0.05\").", "Set d to d * d.", "Set d to d - decimal(\"3\").", "Set c to c * c.", "Set c to c + complex(0, 1).", "Set c to c - complex(n, 1).", "Set m to m * m.", "Set m to m + modular(n, 7).", "Set m to m - modular(1, 7).", "Set n to n + 1.", "Set d to d + n.", "If d > decimal(\"1.5\"):\n    Set n to n + 2.", "Set n to pow(n, 2) % 11.", "Set d to decimal(\"0.5\")."],
        fin: &["d", "c", "m", "n"],
        ret: "n",
    },
    World {
        name: "builtins",
        decls: "",
        init: &["Let mutable n be 5.", "Let mutable s be \"7\".", "Let mutable f be 2.5.", "Let mutable xs be [3, 1]."],
        alpha: &["Set n to parseInt(s).", "Set s to \"{n}\".", "Set s to chr(65 + n % 20).", "Set n to abs(0 - n).", "Set n to min(n, 4).", "Set n to max(n, 2).", "Set n to ceil(f).", "Set n to round(f).", "Set f to pow(f, 2).", "Set n to pow(2, n % 70).", "Set n to count_ones(n).", "Set xs to repeatSeq(n, 3).", "Set f to parseFloat(\"1.25\").", "Set n to length of (text_bytes(s)).", "Set n to n - 3.", "Set f to sqrt(f).", "Set xs to copy(xs).", "Set n to n % 100.", "Set f to 0.0 - f.", "Set n to length(xs)."],
        fin: &["n", "s", "f", "xs"],
        ret: "n",
    },
    World {
        name: "time",
        decls: "",
        init: &["Let mutable d be 2026-01-31.", "Let mutable t be parse_timestamp(\"2026-02-28T23:59:59Z\").", "Let mutable n be 1."],
        alpha: &["Set n to year_of(d) + month_of(d) + day_of(d).", "Set n to weekday_of(d).", "Set t to add_seconds(t, n).", "Set t to add_seconds(t, 86400).", "Set n to day_of(t).", "Set n to hour_of(t) * 60 + minute_of(t).", "Set d to d + 1 month.", "Set d to d + 30 days.", "Set d to d - 1 year.", "Set n to n + 1.", "If d > 2026-03-01:\n    Set n to n + 5.", "Set d to date_of(t).", "Set n to week_of(d).", "Set n to quarter_of(d)."],
        fin: &["d", "t", "n"],
        ret: "n",
    },
];

/// Ways of changing the variables below, and ways of reading them: what an optimiser must not
/// move across one another. Checked as read-write-read words, in every surrounding.
pub const MOVES: World = World {
    name: "moves",
    decls: "## A Point has:\n    An x: Int.\n    A y: Int.\n\n## A Shape is one of:\n    A Circle with radius Int.\n    A Dot.\n\n## To bump (s: mutable Seq of Int):\n    Set item 1 of s to (item 1 of s) + 1.\n\n## To drain (s: mutable Seq of Int) -> Int:\n    Push 6 to s.\n    Return length of s.\n\n## To twice (v: Int) -> Int:\n    Return v * 2.\n",
    init: &[
        "Let mutable a be 2.", "Let mutable b be 3.", "Let mutable xs be [1, 2, 3, 4].", "Let mutable ys be [5, 6].", "Let mutable g be [[1, 2], [3, 4]].",
        "Let mutable p be a new Point with x 1 and y 2.", "Let mutable m be a new Map of Int to Int.", "Set item 2 of m to 8.", "Let mutable v be a new Circle with radius 3.", "Let mutable n be 0.", "Let mutable w be a + b.", "Let u be a * b.", "Let mutable f be 3.25.", "Let mutable st be a new Set of Int.", "Add 5 to st.",
    ],
    alpha: &[
        // writes
        "Set a to a + 1.",
        "Set b to 4 - a.",
        "If a > 2:\n    Set a to 1.\nOtherwise:\n    Set b to b + 1.",
        "Inspect v:\n    When Circle (r):\n        Set a to r.\n    Otherwise:\n        Set b to 9.",
        "While a < 5:\n    Set a to a + 2.",
        "Repeat for i from 1 to 2:\n    Set b to b + i.",
        "Repeat for x in ys:\n    Set a to x - 4.",
        "Inside a zone called \"Z\":\n    Set a to a + 2.",
        "Pop from ys into a.\nPush 4 to ys.",
        "Set a to b.\nSet b to 1.",
        "Set w to 0.",
        "Push 9 to xs.",
        "Set item 1 of xs to a + 7.",
        "Set item 2 of xs to 0.",
        "Pop from xs.",
        "Set xs to [4, 3, 2, 1].",
        "bump(xs).",
        "Set n to n + drain(xs).",
        "Let zs be xs.\nSet item 1 of zs to 77.\nSet n to n + (item 1 of zs).",
        "Push 7 to item 1 of g.",
        "Set item 1 of (item 1 of g) to 44.",
        "Set item 1 of g to [7, 7, 7].",
        "Set p's x to p's x + 3.",
        "Set p to a new Point with x 8 and y 0.",
        "Set item 2 of m to 1.",
        "Set item a of m to 5.",
        "Set v to a new Dot.",
        "If a > 1:\n    Let b be 50.\n    Set n to n + b.",
        "Repeat for a in ys:\n    Set n to n + a.",
        "Set a to a * 4611686018427387904.",
        "Set a to a % 7.",
        "Set a to 0.",
        "While a < 9:\n    If a equals 4:\n        Break.\n    Set a to a + 1.",
        "Set f to f + 0.25.",
        "Attempt all of the following:\n    Set a to 6.\n    Push 2 to xs.",
        "Inspect v:\n    When Circle (a):\n        Set n to n + a.\n    Otherwise:\n        Set n to n - 3.",
        "Let h be (z: Int) -> z + a.\nSet a to h(1).",
        "Remove 5 from st.",
        "Add 2 to st.",
        // reads
        "Let t1 be a + b.\nSet n to n + t1.",
        "Set n to n + a * b + a * b.",
        "If a > b:\n    Set n to n + 1.",
        "If a is at most 3 and b is at least 2:\n    Set n to n + 10.",
        "Let t2 be item 1 of xs.\nSet n to n + t2.",
        "Set n to n + (item 1 of xs) * (item 1 of xs).",
        "Let t3 be length of xs.\nSet n to n * 2 + t3.",
        "Let t4 be item 1 of g.\nSet n to n + (length of t4).",
        "Set n to n + (item 1 of (item 1 of g)).",
        "Let t5 be p's x + p's y.\nSet n to n + t5.",
        "If m contains a:\n    Set n to n + (item a of m).",
        "If m contains 2:\n    Let t6 be item 2 of m.\n    Set n to n + t6.",
        "Repeat for i from 1 to a:\n    Set n to n + 2.",
        "Let t7 be a / 3 + b % 4.\nSet n to n + t7.",
        "Let t8 be a > 0 and (12 / a > 3 or 12 / a < 1).\nIf t8:\n    Set n to n + 3.",
        "Let mutable j be 1.\nWhile j is at most (length of xs):\n    Set n to n + (item j of xs).\n    Set j to j + 1.",
        "Repeat for x in xs:\n    Set n to n + x.",
        "Let t9 be twice(a).\nSet n to n + t9.",
        "Set n to n + w.",
        "Let ta be a + b.\nLet tb be a + b.\nSet n to n + ta * tb.",
        "Inspect v:\n    When Circle (r):\n        Set n to n + r.\n    Otherwise:\n        Set n to n - 1.",
        "If xs contains b:\n    Set n to n + 5.",
        "Let tc be not (a > b).\nIf tc:\n    Set n to n + 4.",
        "Set n to n % 1000.",
        "Let td be a * b.\nSet n to n - td.",
        "Let te be a shifted left by 2.\nSet n to n + te.",
        "Let mutable q be a + b.\nSet q to q + 1.\nLet tf be a + b.\nSet n to n + tf.",
        "If length of xs equals 4:\n    Set n to n + 1.\nOtherwise:\n    Set n to n + 2.",
        "If length of xs > 3:\n    If a < 9:\n        Set n to n + 6.\n    Otherwise:\n        Set n to n + 7.",
        "If f > 3:\n    If f < 4:\n        Set n to n + 11.\n    Otherwise:\n        Set n to n + 13.",
        "Let tg be length of st.\nIf st contains 5:\n    Set n to n * 3 + tg.",
        "Let h be (z: Int) -> z * a + b.\nSet n to n + h(2).",
        "Let th be \"{a}-{b}\".\nSet n to n + (length of th).",
    ],
    fin: &["n", "a", "b", "w", "u", "xs", "ys", "g", "p's x", "p's y"],
    ret: "n + a * 3 + b * 5 + (length of xs)",
};
pub const WRITES: usize = 39;

/// Steady work on data native code handles, and rare events that native code must hand back:
/// overflow, a failing access, a shape it was not compiled for. The events come first.
pub const RARE: World = World {
    name: "rare",
    decls: "## To half (n: Int) -> Int:\n    If n > 1000000:\n        Return n / 2.\n    Return n.\n\n## To peek (s: Seq of Int, i: Int) -> Int:\n    Return item i of s.\n\n## To poke (s: mutable Seq of Int, i: Int):\n    Set item i of s to (item i of s) + 1.\n\n## To feed (s: Seq of Int, x: Int) -> Seq of Int:\n    Let mutable r be s.\n    Push x to r.\n    Return r.\n",
    init: &[
        "Let mutable a be 3.", "Let mutable b be 5.", "Let mutable f be 1.5.", "Let mutable h be true.", "Let mutable xs be [1, 2, 3].", "Let mutable ys be [7, 8, 9].", "Let mutable fs be [0.5, 1.5].",
        "Let mutable m be a new Map of Int to Int.", "Set item 1 of m to 2.", "Let mutable t be \"a\".", "Let mutable big be 4611686018427387000.",
    ],
    alpha: &[
        // events
        "If k equals 117:\n    Set a to a * 4611686018427387904.",
        "If k equals 117:\n    Set b to item 40 of xs.",
        "If k equals 117:\n    Set item 0 of xs to 1.",
        "Set b to 1000 / (117 - k).",
        "Set b to 1000 % (117 - k).",
        "If k equals 117:\n    Set ys to xs.",
        "If k equals 117:\n    Show \"event {a} {b}\".",
        "If k equals 117:\n    Set xs to [5, 6, 7, 8].",
        "If k equals 117:\n    Break.",
        "If k equals 117:\n    Set a to half(a * 1000000).",
        "If k equals 117:\n    Set b to peek(xs, 40).",
        "If k equals 117:\n    poke(xs, 40).",
        "If k equals 117:\n    Set b to item 999 of m.",
        "Set big to big + 60.",
        "Set big to big * 3 - big.",
        "If k equals 117:\n    Push 4 to ys.",
        "If k equals 117:\n    Set xs to feed(xs, 4).",
        // steady work
        "Set a to a + 1.",
        "Set b to b + a.",
        "Set a to (a * 5 + b) % 1009.",
        "Set item 2 of xs to (item 1 of xs) + a.",
        "Set item (k % 3 + 1) of xs to k.",
        "Set b to b + (item (k % 3 + 1) of ys).",
        "Set item 1 of ys to item 3 of xs.",
        "Set f to f * 1.01 + 0.5.",
        "Set item 1 of fs to (item 2 of fs) + f.",
        "Set h to not h.\nIf h:\n    Set b to b - 1.",
        "Set item (k % 4) of m to a.",
        "If m contains 1:\n    Set a to a + (item 1 of m).",
        "Set t to t + \"x\".",
        "Push a to xs.",
        "If length of xs > 9:\n    Pop from xs.",
        "Set b to half(b).",
        "Set b to b + peek(xs, 2).",
        "poke(ys, 2).",
        "Repeat for i from 1 to 3:\n    Set item i of ys to (item i of xs) + i.",
        "Let tmp be item 1 of xs.\nSet item 1 of xs to item 2 of xs.\nSet item 2 of xs to tmp.",
        "Set b to (b shifted left by 1) ^ k.\nSet b to b % 4096.",
        "If a > b or k % 2 equals 0:\n    Set a to a - 2.\nOtherwise:\n    Set b to b / 2.",
    ],
    fin: &["a", "b", "f", "h", "xs", "ys", "fs", "length of m", "t", "big"],
    ret: "a + b * 3 + (length of xs) + (item 1 of ys) * 5",
};
pub const EVENTS: usize = 17;

fn put(out: &mut String, d: usize, s: &str) {
    for l in s.lines() {
        for _ in 0..d {
            out.push_str("    ");
        }
        out.push_str(l);
        out.push('\n');
    }
}

/// Names a letter binds for itself get a different name at each position of
/// the word; names the world binds keep theirs (a letter may shadow them).
fn fresh_names(w: &World, letter: &str, pos: usize) -> String {
    let bound = |line: &str| -> Option<String> {
        let l = line.trim_start().strip_prefix("Let ")?;
        let l = l.strip_prefix("mutable ").unwrap_or(l);
        Some(l.chars().take_while(|c| c.is_alphanumeric()).collect())
    };
    let world: Vec<String> = w.init.iter().flat_map(|s| s.lines()).filter_map(bound).collect();
    let own: Vec<String> = letter.lines().filter_map(bound).filter(|n| !world.contains(n)).collect();
    let mut out = String::new();
    let mut word = String::new();
    for c in letter.chars().chain(['\u{0}']) {
        if c.is_alphanumeric() {
            word.push(c);
            continue;
        }
        out.push_str(&word);
        if own.contains(&word) {
            out.push((b'a' + pos as u8) as char);
        }
        word.clear();
        if c != '\u{0}' {
            out.push(c);
        }
    }
    out
}

/// Worlds whose data stays small when a word is repeated a hundred times and more.
pub const HOT: &[&str] = &["float", "intmap", "alias", "boollist", "word", "control", "closure", "tuple", "record", "set", "map", "nested"];

/// The word placed in a surrounding; `n` is the number of repetitions.
pub fn program(w: &World, word: &[usize], ctx: usize, n: i64) -> String {
    let mut o = String::from(w.decls);
    if !w.decls.is_empty() {
        o.push('\n');
    }
    let body = |o: &mut String, d: usize| {
        for (pos, i) in word.iter().enumerate() {
            put(o, d, &fresh_names(w, w.alpha[*i], pos));
        }
    };
    if ctx == 3 {
        o.push_str("## To step (k: Int) -> Int:\n");
        for s in w.init {
            put(&mut o, 1, s);
        }
        body(&mut o, 1);
        put(&mut o, 1, &format!("Return {}.", w.ret));
        o.push_str("\n## Main\nLet mutable acc be 0.\n");
        put(&mut o, 0, &format!("Repeat for k from 1 to {n}:\n    Set acc to (acc * 31 + step(k)) % 1000003."));
        o.push_str("Show acc.\nShow step(5).\n");
        return o;
    }
    o.push_str("## Main\n");
    for s in w.init {
        put(&mut o, 0, s);
    }
    match ctx {
        0 => {
            put(&mut o, 0, &format!("Let mutable k be {n}."));
            body(&mut o, 0);
        }
        1 => {
            put(&mut o, 0, &format!("Let mutable k be 0.\nWhile k < {n}:"));
            body(&mut o, 1);
            put(&mut o, 1, "Set k to k + 1.");
        }
        _ => {
            put(&mut o, 0, &format!("Repeat for k from 1 to {n}:"));
            body(&mut o, 1);
        }
    }
    for f in w.fin {
        put(&mut o, 0, &format!("Show {f}."));
    }
    o
}

pub struct TextCase {
    pub key: String,
    pub src: String,
}

/// All words of exactly the lengths asked for.
pub fn cases(w: &World, lens: &[usize], ctxs: &[usize], ns: &[i64]) -> Vec<TextCase> {
    let mut out = vec![];
    let max = *lens.iter().max().unwrap();
    mc::words(w.alpha.len(), max, &mut |word| {
        if !lens.contains(&word.len()) {
            return;
        }
        // A name bound by two statements of one word would be bound twice.
        for &c in ctxs {
            for &n in ns {
                out.push(TextCase { key: format!("{}/c{c}/n{n}/{word:?}", w.name), src: program(w, word, c, n) });
            }
        }
    });
    out
}

/// Event and steady work in either order, and an event between two pieces of work.
pub fn rare(ctxs: &[usize], ns: &[i64], full: bool) -> Vec<TextCase> {
    let w = &RARE;
    let mut out = vec![];
    let mut add = |word: &[usize]| {
        for &c in ctxs {
            // A function body of its own has no loop to leave.
            if c == 3 && word.contains(&8) {
                continue;
            }
            for &n in ns {
                out.push(TextCase { key: format!("{}/c{c}/n{n}/{word:?}", w.name), src: program(w, word, c, n) });
            }
        }
    };
    for i in 0..w.alpha.len() {
        add(&[i]);
    }
    for s in EVENTS..w.alpha.len() {
        for e in 0..EVENTS {
            add(&[s, e]);
            add(&[e, s]);
            for s2 in EVENTS..w.alpha.len() {
                if full || s2 == s {
                    add(&[s, e, s2]);
                }
            }
        }
        for s2 in EVENTS..w.alpha.len() {
            add(&[s, s2]);
        }
    }
    out
}

/// Words read-write-read (and write-read, read-write) over [`MOVES`].
pub fn moves(ctxs: &[usize], ns: &[i64], full: bool) -> Vec<TextCase> {
    let w = &MOVES;
    let mut out = vec![];
    let mut add = |word: &[usize]| {
        for &c in ctxs {
            for &n in ns {
                out.push(TextCase { key: format!("{}/c{c}/n{n}/{word:?}", w.name), src: program(w, word, c, n) });
            }
        }
    };
    let reads = w.alpha.len() - WRITES;
    for i in 0..w.alpha.len() {
        add(&[i]);
    }
    for x in 0..WRITES {
        for r in 0..reads {
            let r = WRITES + r;
            add(&[r, x]);
            add(&[x, r]);
            if full {
                for r2 in 0..reads {
                    add(&[r, x, WRITES + r2]);
                }
                for y in 0..WRITES {
                    add(&[x, r, y]);
                    add(&[x, y, r]);
                }
            } else {
                add(&[r, x, r]);
            }
        }
    }
    out
}
