package main

// from spec/Opcodes.tla
var opNames = []string{
	"OP_0",
	"OP_0NOTEQUAL",
	"OP_1",
	"OP_10",
	"OP_11",
	"OP_12",
	"OP_13",
	"OP_14",
	"OP_15",
	"OP_16",
	"OP_1ADD",
	"OP_1NEGATE",
	"OP_1SUB",
	"OP_2",
	"OP_2DIV",
	"OP_2DROP",
	"OP_2DUP",
	"OP_2MUL",
	"OP_2OVER",
	"OP_2ROT",
	"OP_2SWAP",
	"OP_3",
	"OP_3DUP",
	"OP_4",
	"OP_5",
	"OP_6",
	"OP_7",
	"OP_8",
	"OP_9",
	"OP_ABS",
	"OP_ADD",
	"OP_AND",
	"OP_BASE",
	"OP_BIN2NUM",
	"OP_BOOLAND",
	"OP_BOOLOR",
	"OP_CAT",
	"OP_CHECKMULTISIG",
	"OP_CHECKMULTISIGVERIFY",
	"OP_CHECKSIG",
	"OP_CHECKSIGVERIFY",
	"OP_CODESEPARATOR",
	"OP_DATA_1",
	"OP_DATA_10",
	"OP_DATA_11",
	"OP_DATA_12",
	"OP_DATA_13",
	"OP_DATA_14",
	"OP_DATA_15",
	"OP_DATA_16",
	"OP_DATA_17",
	"OP_DATA_18",
	"OP_DATA_19",
	"OP_DATA_2",
	"OP_DATA_20",
	"OP_DATA_21",
	"OP_DATA_22",
	"OP_DATA_23",
	"OP_DATA_24",
	"OP_DATA_25",
	"OP_DATA_26",
	"OP_DATA_27",
	"OP_DATA_28",
	"OP_DATA_29",
	"OP_DATA_3",
	"OP_DATA_30",
	"OP_DATA_31",
	"OP_DATA_32",
	"OP_DATA_33",
	"OP_DATA_34",
	"OP_DATA_35",
	"OP_DATA_36",
	"OP_DATA_37",
	"OP_DATA_38",
	"OP_DATA_39",
	"OP_DATA_4",
	"OP_DATA_40",
	"OP_DATA_41",
	"OP_DATA_42",
	"OP_DATA_43",
	"OP_DATA_44",
	"OP_DATA_45",
	"OP_DATA_46",
	"OP_DATA_47",
	"OP_DATA_48",
	"OP_DATA_49",
	"OP_DATA_5",
	"OP_DATA_50",
	"OP_DATA_51",
	"OP_DATA_52",
	"OP_DATA_53",
	"OP_DATA_54",
	"OP_DATA_55",
	"OP_DATA_56",
	"OP_DATA_57",
	"OP_DATA_58",
	"OP_DATA_59",
	"OP_DATA_6",
	"OP_DATA_60",
	"OP_DATA_61",
	"OP_DATA_62",
	"OP_DATA_63",
	"OP_DATA_64",
	"OP_DATA_65",
	"OP_DATA_66",
	"OP_DATA_67",
	"OP_DATA_68",
	"OP_DATA_69",
	"OP_DATA_7",
	"OP_DATA_70",
	"OP_DATA_71",
	"OP_DATA_72",
	"OP_DATA_73",
	"OP_DATA_74",
	"OP_DATA_75",
	"OP_DATA_8",
	"OP_DATA_9",
	"OP_DEPTH",
	"OP_DIV",
	"OP_DROP",
	"OP_DUP",
	"OP_ELSE",
	"OP_ENDIF",
	"OP_EQUAL",
	"OP_EQUALVERIFY",
	"OP_FALSE",
	"OP_FROMALTSTACK",
	"OP_GREATERTHAN",
	"OP_GREATERTHANOREQUAL",
	"OP_HASH160",
	"OP_HASH256",
	"OP_IF",
	"OP_IFDUP",
	"OP_INVALIDOPCODE",
	"OP_INVERT",
	"OP_LESSTHAN",
	"OP_LESSTHANOREQUAL",
	"OP_LSHIFT",
	"OP_MAX",
	"OP_MIN",
	"OP_MOD",
	"OP_MUL",
	"OP_NEGATE",
	"OP_NIP",
	"OP_NOP",
	"OP_NOP1",
	"OP_NOP10",
	"OP_NOP2",
	"OP_NOP3",
	"OP_NOP4",
	"OP_NOP5",
	"OP_NOP6",
	"OP_NOP7",
	"OP_NOP8",
	"OP_NOP9",
	"OP_NOT",
	"OP_NOTIF",
	"OP_NUM2BIN",
	"OP_NUMEQUAL",
	"OP_NUMEQUALVERIFY",
	"OP_NUMNOTEQUAL",
	"OP_ONE",
	"OP_OR",
	"OP_OVER",
	"OP_PICK",
	"OP_PUBKEY",
	"OP_PUBKEYHASH",
	"OP_PUBKEYS",
	"OP_PUSHDATA1",
	"OP_PUSHDATA2",
	"OP_PUSHDATA4",
	"OP_RESERVED",
	"OP_RESERVED1",
	"OP_RESERVED2",
	"OP_RETURN",
	"OP_RIPEMD160",
	"OP_ROLL",
	"OP_ROT",
	"OP_RSHIFT",
	"OP_SHA1",
	"OP_SHA256",
	"OP_SIZE",
	"OP_SMALLINTEGER",
	"OP_SPLIT",
	"OP_SUB",
	"OP_SWAP",
	"OP_TOALTSTACK",
	"OP_TRUE",
	"OP_TUCK",
	"OP_UNKNOWN186",
	"OP_UNKNOWN187",
	"OP_UNKNOWN188",
	"OP_UNKNOWN189",
	"OP_UNKNOWN190",
	"OP_UNKNOWN191",
	"OP_UNKNOWN192",
	"OP_UNKNOWN193",
	"OP_UNKNOWN194",
	"OP_UNKNOWN195",
	"OP_UNKNOWN196",
	"OP_UNKNOWN197",
	"OP_UNKNOWN198",
	"OP_UNKNOWN199",
	"OP_UNKNOWN200",
	"OP_UNKNOWN201",
	"OP_UNKNOWN202",
	"OP_UNKNOWN203",
	"OP_UNKNOWN204",
	"OP_UNKNOWN205",
	"OP_UNKNOWN206",
	"OP_UNKNOWN207",
	"OP_UNKNOWN208",
	"OP_UNKNOWN209",
	"OP_UNKNOWN210",
	"OP_UNKNOWN211",
	"OP_UNKNOWN212",
	"OP_UNKNOWN213",
	"OP_UNKNOWN214",
	"OP_UNKNOWN215",
	"OP_UNKNOWN216",
	"OP_UNKNOWN217",
	"OP_UNKNOWN218",
	"OP_UNKNOWN219",
	"OP_UNKNOWN220",
	"OP_UNKNOWN221",
	"OP_UNKNOWN222",
	"OP_UNKNOWN223",
	"OP_UNKNOWN224",
	"OP_UNKNOWN225",
	"OP_UNKNOWN226",
	"OP_UNKNOWN227",
	"OP_UNKNOWN228",
	"OP_UNKNOWN229",
	"OP_UNKNOWN230",
	"OP_UNKNOWN231",
	"OP_UNKNOWN232",
	"OP_UNKNOWN233",
	"OP_UNKNOWN234",
	"OP_UNKNOWN235",
	"OP_UNKNOWN236",
	"OP_UNKNOWN237",
	"OP_UNKNOWN238",
	"OP_UNKNOWN239",
	"OP_UNKNOWN240",
	"OP_UNKNOWN241",
	"OP_UNKNOWN242",
	"OP_UNKNOWN243",
	"OP_UNKNOWN244",
	"OP_UNKNOWN245",
	"OP_UNKNOWN246",
	"OP_UNKNOWN247",
	"OP_UNKNOWN248",
	"OP_UNKNOWN249",
	"OP_UNKNOWN252",
	"OP_VER",
	"OP_VERIF",
	"OP_VERIFY",
	"OP_VERNOTIF",
	"OP_WITHIN",
	"OP_XOR",
	"OP_ZERO",
}
