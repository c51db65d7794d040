// written by tools/gen_cli.py
macro_rules! file {
	($n:expr) => {
		concat!(env!("CARGO_MANIFEST_DIR"), "/../harness/abi/cli", $n, ".abi")
	};
}
/// name, inputs, outputs, how many functions of that name, file
pub const FUNCTIONS: &[(&str, &[&str], &[&str], usize, &str)] = &[
	("one0", &["bool"], &["bool"], 1, file!(0)),
	("one1", &["string"], &["string"], 1, file!(0)),
	("one2", &["bytes"], &["bytes"], 1, file!(0)),
	("one3", &["address"], &["address"], 1, file!(0)),
	("one4", &["uint256"], &["uint256"], 1, file!(0)),
	("one5", &["uint8"], &["uint8"], 1, file!(0)),
	("one6", &["int256"], &["int256"], 1, file!(0)),
	("one7", &["int64"], &["int64"], 1, file!(0)),
	("one8", &["bytes1"], &["bytes1"], 1, file!(1)),
	("one9", &["bytes32"], &["bytes32"], 1, file!(1)),
	("one10", &["bool[]"], &["bool[]"], 1, file!(1)),
	("one11", &["string[]"], &["string[]"], 1, file!(1)),
	("one12", &["bool[2]"], &["bool[2]"], 1, file!(1)),
	("one13", &["string[2]"], &["string[2]"], 1, file!(1)),
	("one14", &["(bool,string)"], &["(bool,string)"], 1, file!(1)),
	("one15", &["(bool,uint8)[]"], &["(bool,uint8)[]"], 1, file!(1)),
	("one16", &["bool[][2]"], &["bool[][2]"], 1, file!(2)),
	("one17", &["((bool),string[])"], &["((bool),string[])"], 1, file!(2)),
	("twin18", &["bool"], &["bool"], 2, file!(2)),
	("twin18", &["uint8"], &["uint8"], 2, file!(2)),
	("nest20", &["bool", "bool"], &[], 4, file!(2)),
	("nest20", &["bool", "uint8"], &[], 4, file!(2)),
	("nest20", &["bool"], &[], 4, file!(2)),
	("nest20", &["bool", "bool", "uint8"], &[], 4, file!(2)),
	("outs24", &["bool"], &["bool"], 4, file!(3)),
	("outs24", &["bool"], &["uint8"], 4, file!(3)),
	("outs24", &["bool"], &[], 4, file!(3)),
	("outs24", &["bool"], &["bool", "uint8"], 4, file!(3)),
	("twin28", &["uint256"], &["bool"], 2, file!(3)),
	("twin28", &["int256"], &["uint8"], 2, file!(3)),
	("nest30", &["bool", "uint256"], &[], 4, file!(4)),
	("nest30", &["bool", "int256"], &[], 4, file!(4)),
	("nest30", &["bool"], &[], 4, file!(4)),
	("nest30", &["bool", "uint256", "int256"], &[], 4, file!(4)),
	("outs34", &["bool"], &["uint256"], 4, file!(4)),
	("outs34", &["bool"], &["int256"], 4, file!(4)),
	("outs34", &["bool"], &[], 4, file!(4)),
	("outs34", &["bool"], &["uint256", "int256"], 4, file!(4)),
	("twin38", &["string"], &["bool"], 2, file!(5)),
	("twin38", &["bytes"], &["uint8"], 2, file!(5)),
	("nest40", &["bool", "string"], &[], 4, file!(5)),
	("nest40", &["bool", "bytes"], &[], 4, file!(5)),
	("nest40", &["bool"], &[], 4, file!(5)),
	("nest40", &["bool", "string", "bytes"], &[], 4, file!(5)),
	("outs44", &["bool"], &["string"], 4, file!(6)),
	("outs44", &["bool"], &["bytes"], 4, file!(6)),
	("outs44", &["bool"], &[], 4, file!(6)),
	("outs44", &["bool"], &["string", "bytes"], 4, file!(6)),
	("twin48", &["bool[]"], &["bool"], 2, file!(6)),
	("twin48", &["bool[2]"], &["uint8"], 2, file!(6)),
	("nest50", &["bool", "bool[]"], &[], 4, file!(7)),
	("nest50", &["bool", "bool[2]"], &[], 4, file!(7)),
	("nest50", &["bool"], &[], 4, file!(7)),
	("nest50", &["bool", "bool[]", "bool[2]"], &[], 4, file!(7)),
	("outs54", &["bool"], &["bool[]"], 4, file!(7)),
	("outs54", &["bool"], &["bool[2]"], 4, file!(7)),
	("outs54", &["bool"], &[], 4, file!(7)),
	("outs54", &["bool"], &["bool[]", "bool[2]"], 4, file!(7)),
	("twin58", &["(bool,string)"], &["bool"], 2, file!(8)),
	("twin58", &["(bool,bytes)"], &["uint8"], 2, file!(8)),
	("nest60", &["bool", "(bool,string)"], &[], 4, file!(8)),
	("nest60", &["bool", "(bool,bytes)"], &[], 4, file!(8)),
	("nest60", &["bool"], &[], 4, file!(8)),
	("nest60", &["bool", "(bool,string)", "(bool,bytes)"], &[], 4, file!(8)),
	("outs64", &["bool"], &["(bool,string)"], 4, file!(9)),
	("outs64", &["bool"], &["(bool,bytes)"], 4, file!(9)),
	("outs64", &["bool"], &[], 4, file!(9)),
	("outs64", &["bool"], &["(bool,string)", "(bool,bytes)"], 4, file!(9)),
	("twin68", &["bytes1"], &["bool"], 2, file!(9)),
	("twin68", &["bytes32"], &["uint8"], 2, file!(9)),
	("nest70", &["bool", "bytes1"], &[], 4, file!(10)),
	("nest70", &["bool", "bytes32"], &[], 4, file!(10)),
	("nest70", &["bool"], &[], 4, file!(10)),
	("nest70", &["bool", "bytes1", "bytes32"], &[], 4, file!(10)),
	("outs74", &["bool"], &["bytes1"], 4, file!(10)),
	("outs74", &["bool"], &["bytes32"], 4, file!(10)),
	("outs74", &["bool"], &[], 4, file!(10)),
	("outs74", &["bool"], &["bytes1", "bytes32"], 4, file!(10)),
	("name", &["bool"], &["bool"], 1, file!(11)),
	("Name", &["bool"], &["bool"], 1, file!(11)),
	("NAME", &["bool"], &["bool"], 1, file!(11)),
	("nam", &["bool"], &["bool"], 1, file!(11)),
	("names", &["bool"], &["bool"], 1, file!(11)),
	("name_", &["bool"], &["bool"], 1, file!(11)),
	("_name", &["bool"], &["bool"], 1, file!(11)),
	("name1", &["bool"], &["bool"], 1, file!(11)),
	("$name", &["bool"], &["bool"], 1, file!(11)),
	("n", &["bool"], &["bool"], 1, file!(11)),
	("many2", &["bool", "uint8"], &["string", "bytes1"], 1, file!(12)),
	("many3", &["bool", "uint8", "bool[]"], &["string", "bytes1", "(bool,uint8)[]"], 1, file!(12)),
	("many4", &["bool", "uint8", "bool[]", "(bool,uint8)[]"], &["string", "bytes1", "(bool,uint8)[]", "uint256"], 1, file!(12)),
	("many5", &["bool", "uint8", "bool[]", "(bool,uint8)[]", "bytes"], &["string", "bytes1", "(bool,uint8)[]", "uint256", "string[]"], 1, file!(12)),
	("many8", &["bool", "uint8", "bool[]", "(bool,uint8)[]", "bytes", "int64", "bool[2]", "((bool),string[])"], &["string", "bytes1", "(bool,uint8)[]", "uint256", "string[]", "bool", "int64", "(bool,string)"], 1, file!(12)),
	("many13", &["bool", "uint8", "bool[]", "(bool,uint8)[]", "bytes", "int64", "bool[2]", "((bool),string[])", "uint256", "bytes32", "(bool,string)", "string", "int256"], &["string", "bytes1", "(bool,uint8)[]", "uint256", "string[]", "bool", "int64", "(bool,string)", "address", "bool[]", "((bool),string[])", "int256", "string[2]"], 1, file!(12)),
];
/// name, anonymous, parameters, how many events of that name, file
pub const EVENTS: &[(&str, bool, &[(&str, &str, bool)], usize, &str)] = &[
	("One0", false, &[("a", "bool", true), ("b", "bool", false)], 1, file!(12)),
	("Anon0", true, &[("", "bool", false), ("", "bool", true)], 1, file!(12)),
	("One1", false, &[("a", "string", true), ("b", "string", false)], 1, file!(13)),
	("Anon1", true, &[("", "string", false), ("", "string", true)], 1, file!(13)),
	("One2", false, &[("a", "bytes", true), ("b", "bytes", false)], 1, file!(13)),
	("Anon2", true, &[("", "bytes", false), ("", "bytes", true)], 1, file!(13)),
	("One3", false, &[("a", "address", true), ("b", "address", false)], 1, file!(13)),
	("Anon3", true, &[("", "address", false), ("", "address", true)], 1, file!(13)),
	("One4", false, &[("a", "uint256", true), ("b", "uint256", false)], 1, file!(13)),
	("Anon4", true, &[("", "uint256", false), ("", "uint256", true)], 1, file!(13)),
	("One5", false, &[("a", "uint8", true), ("b", "uint8", false)], 1, file!(14)),
	("Anon5", true, &[("", "uint8", false), ("", "uint8", true)], 1, file!(14)),
	("One6", false, &[("a", "int256", true), ("b", "int256", false)], 1, file!(14)),
	("Anon6", true, &[("", "int256", false), ("", "int256", true)], 1, file!(14)),
	("One7", false, &[("a", "int64", true), ("b", "int64", false)], 1, file!(14)),
	("Anon7", true, &[("", "int64", false), ("", "int64", true)], 1, file!(14)),
	("One8", false, &[("a", "bytes1", true), ("b", "bytes1", false)], 1, file!(14)),
	("Anon8", true, &[("", "bytes1", false), ("", "bytes1", true)], 1, file!(14)),
	("One9", false, &[("a", "bytes32", true), ("b", "bytes32", false)], 1, file!(15)),
	("Anon9", true, &[("", "bytes32", false), ("", "bytes32", true)], 1, file!(15)),
	("One10", false, &[("a", "bool[]", true), ("b", "bool[]", false)], 1, file!(15)),
	("Anon10", true, &[("", "bool[]", false), ("", "bool[]", true)], 1, file!(15)),
	("One11", false, &[("a", "string[]", true), ("b", "string[]", false)], 1, file!(15)),
	("Anon11", true, &[("", "string[]", false), ("", "string[]", true)], 1, file!(15)),
	("One12", false, &[("a", "bool[2]", true), ("b", "bool[2]", false)], 1, file!(15)),
	("Anon12", true, &[("", "bool[2]", false), ("", "bool[2]", true)], 1, file!(15)),
	("One13", false, &[("a", "string[2]", true), ("b", "string[2]", false)], 1, file!(16)),
	("Anon13", true, &[("", "string[2]", false), ("", "string[2]", true)], 1, file!(16)),
	("One14", false, &[("a", "(bool,string)", true), ("b", "(bool,string)", false)], 1, file!(16)),
	("Anon14", true, &[("", "(bool,string)", false), ("", "(bool,string)", true)], 1, file!(16)),
	("One15", false, &[("a", "(bool,uint8)[]", true), ("b", "(bool,uint8)[]", false)], 1, file!(16)),
	("Anon15", true, &[("", "(bool,uint8)[]", false), ("", "(bool,uint8)[]", true)], 1, file!(16)),
	("One16", false, &[("a", "bool[][2]", true), ("b", "bool[][2]", false)], 1, file!(16)),
	("Anon16", true, &[("", "bool[][2]", false), ("", "bool[][2]", true)], 1, file!(16)),
	("One17", false, &[("a", "((bool),string[])", true), ("b", "((bool),string[])", false)], 1, file!(17)),
	("Anon17", true, &[("", "((bool),string[])", false), ("", "((bool),string[])", true)], 1, file!(17)),
	("Twin18", false, &[("p0", "bool", false)], 2, file!(17)),
	("Twin18", false, &[("p0", "uint8", false)], 2, file!(17)),
	("Nest20", false, &[("p0", "bool", false), ("p1", "bool", false)], 4, file!(17)),
	("Nest20", false, &[("p0", "bool", false), ("p1", "uint8", false)], 4, file!(17)),
	("Nest20", false, &[("p0", "bool", false)], 4, file!(17)),
	("Nest20", false, &[("p0", "bool", false), ("p1", "bool", false), ("p2", "uint8", false)], 4, file!(17)),
	("anon42", true, &[("p0", "bool", false)], 2, file!(18)),
	("anon42", true, &[("p0", "uint8", false)], 2, file!(18)),
	("Twin28", false, &[("p0", "uint256", false)], 2, file!(18)),
	("Twin28", false, &[("p0", "int256", false)], 2, file!(18)),
	("Nest30", false, &[("p0", "bool", false), ("p1", "uint256", false)], 4, file!(18)),
	("Nest30", false, &[("p0", "bool", false), ("p1", "int256", false)], 4, file!(18)),
	("Nest30", false, &[("p0", "bool", false)], 4, file!(18)),
	("Nest30", false, &[("p0", "bool", false), ("p1", "uint256", false), ("p2", "int256", false)], 4, file!(18)),
	("anon50", true, &[("p0", "uint256", false)], 2, file!(19)),
	("anon50", true, &[("p0", "int256", false)], 2, file!(19)),
	("Twin38", false, &[("p0", "string", false)], 2, file!(19)),
	("Twin38", false, &[("p0", "bytes", false)], 2, file!(19)),
	("Nest40", false, &[("p0", "bool", false), ("p1", "string", false)], 4, file!(19)),
	("Nest40", false, &[("p0", "bool", false), ("p1", "bytes", false)], 4, file!(19)),
	("Nest40", false, &[("p0", "bool", false)], 4, file!(19)),
	("Nest40", false, &[("p0", "bool", false), ("p1", "string", false), ("p2", "bytes", false)], 4, file!(19)),
	("anon58", true, &[("p0", "string", false)], 2, file!(20)),
	("anon58", true, &[("p0", "bytes", false)], 2, file!(20)),
	("Twin48", false, &[("p0", "bool[]", false)], 2, file!(20)),
	("Twin48", false, &[("p0", "bool[2]", false)], 2, file!(20)),
	("Nest50", false, &[("p0", "bool", false), ("p1", "bool[]", false)], 4, file!(20)),
	("Nest50", false, &[("p0", "bool", false), ("p1", "bool[2]", false)], 4, file!(20)),
	("Nest50", false, &[("p0", "bool", false)], 4, file!(20)),
	("Nest50", false, &[("p0", "bool", false), ("p1", "bool[]", false), ("p2", "bool[2]", false)], 4, file!(20)),
	("anon66", true, &[("p0", "bool[]", false)], 2, file!(21)),
	("anon66", true, &[("p0", "bool[2]", false)], 2, file!(21)),
	("Twin58", false, &[("p0", "(bool,string)", false)], 2, file!(21)),
	("Twin58", false, &[("p0", "(bool,bytes)", false)], 2, file!(21)),
	("Nest60", false, &[("p0", "bool", false), ("p1", "(bool,string)", false)], 4, file!(21)),
	("Nest60", false, &[("p0", "bool", false), ("p1", "(bool,bytes)", false)], 4, file!(21)),
	("Nest60", false, &[("p0", "bool", false)], 4, file!(21)),
	("Nest60", false, &[("p0", "bool", false), ("p1", "(bool,string)", false), ("p2", "(bool,bytes)", false)], 4, file!(21)),
	("anon74", true, &[("p0", "(bool,string)", false)], 2, file!(22)),
	("anon74", true, &[("p0", "(bool,bytes)", false)], 2, file!(22)),
	("Twin68", false, &[("p0", "bytes1", false)], 2, file!(22)),
	("Twin68", false, &[("p0", "bytes32", false)], 2, file!(22)),
	("Nest70", false, &[("p0", "bool", false), ("p1", "bytes1", false)], 4, file!(22)),
	("Nest70", false, &[("p0", "bool", false), ("p1", "bytes32", false)], 4, file!(22)),
	("Nest70", false, &[("p0", "bool", false)], 4, file!(22)),
	("Nest70", false, &[("p0", "bool", false), ("p1", "bytes1", false), ("p2", "bytes32", false)], 4, file!(22)),
	("anon82", true, &[("p0", "bytes1", false)], 2, file!(23)),
	("anon82", true, &[("p0", "bytes32", false)], 2, file!(23)),
	("name", false, &[("p0", "bool", false)], 1, file!(24)),
	("Name", false, &[("p0", "bool", false)], 1, file!(24)),
	("NAME", false, &[("p0", "bool", false)], 1, file!(24)),
	("nam", false, &[("p0", "bool", false)], 1, file!(24)),
	("names", false, &[("p0", "bool", false)], 1, file!(24)),
	("name_", false, &[("p0", "bool", false)], 1, file!(24)),
	("_name", false, &[("p0", "bool", false)], 1, file!(24)),
	("name1", false, &[("p0", "bool", false)], 1, file!(24)),
	("$name", false, &[("p0", "bool", false)], 1, file!(24)),
	("n", false, &[("p0", "bool", false)], 1, file!(24)),
	("Many2", false, &[("x0", "bool", false), ("", "uint8", true)], 1, file!(25)),
	("Few2", true, &[("y", "bool", false), ("y", "int64", true)], 1, file!(25)),
	("Many3", false, &[("x0", "bool", false), ("", "uint8", true), ("", "bool[]", true)], 1, file!(25)),
	("Few3", true, &[("y", "bool", false), ("y", "int64", false), ("y", "(bool,string)", true)], 1, file!(25)),
	("Many4", false, &[("x0", "bool", false), ("", "uint8", true), ("", "bool[]", true), ("x3", "(bool,uint8)[]", false)], 1, file!(25)),
	("Few4", true, &[("y", "bool", false), ("y", "int64", false), ("y", "(bool,string)", false), ("y", "address", true)], 1, file!(25)),
	("Many5", false, &[("x0", "bool", false), ("", "uint8", true), ("", "bool[]", true), ("x3", "(bool,uint8)[]", false), ("", "bytes", true)], 1, file!(25)),
	("Few5", true, &[("y", "bool", false), ("y", "int64", false), ("y", "(bool,string)", false), ("y", "address", false), ("y", "bool[]", true)], 1, file!(25)),
	("Many8", false, &[("x0", "bool", false), ("", "uint8", true), ("", "bool[]", true), ("x3", "(bool,uint8)[]", false), ("", "bytes", true), ("", "int64", false), ("x6", "bool[2]", false), ("", "((bool),string[])", false)], 1, file!(26)),
	("Few8", true, &[("y", "bool", false), ("y", "int64", false), ("y", "(bool,string)", false), ("y", "address", false), ("y", "bool[]", false), ("y", "((bool),string[])", false), ("y", "int256", false), ("y", "string[2]", true)], 1, file!(26)),
	("Many13", false, &[("x0", "bool", false), ("", "uint8", true), ("", "bool[]", true), ("x3", "(bool,uint8)[]", false), ("", "bytes", true), ("", "int64", false), ("x6", "bool[2]", false), ("", "((bool),string[])", false), ("", "uint256", false), ("x9", "bytes32", false), ("", "(bool,string)", false), ("", "string", false), ("x12", "int256", false)], 1, file!(26)),
	("Few13", true, &[("y", "bool", false), ("y", "int64", false), ("y", "(bool,string)", false), ("y", "address", false), ("y", "bool[]", false), ("y", "((bool),string[])", false), ("y", "int256", false), ("y", "string[2]", false), ("y", "bytes", false), ("y", "bytes32", false), ("y", "bool[][2]", false), ("y", "uint8", false), ("y", "bool[2]", true)], 1, file!(26)),
];
