------------------------------ MODULE Opcodes ------------------------------
(* Names of the 256 byte values as opcodes, and the aliases that are read     *)
(* but never written.                                                          *)
EXTENDS Bytes

OpNames == <<
  "OP_FALSE", "OP_DATA_1", "OP_DATA_2", "OP_DATA_3",   \* 00
  "OP_DATA_4", "OP_DATA_5", "OP_DATA_6", "OP_DATA_7",   \* 04
  "OP_DATA_8", "OP_DATA_9", "OP_DATA_10", "OP_DATA_11",   \* 08
  "OP_DATA_12", "OP_DATA_13", "OP_DATA_14", "OP_DATA_15",   \* 0c
  "OP_DATA_16", "OP_DATA_17", "OP_DATA_18", "OP_DATA_19",   \* 10
  "OP_DATA_20", "OP_DATA_21", "OP_DATA_22", "OP_DATA_23",   \* 14
  "OP_DATA_24", "OP_DATA_25", "OP_DATA_26", "OP_DATA_27",   \* 18
  "OP_DATA_28", "OP_DATA_29", "OP_DATA_30", "OP_DATA_31",   \* 1c
  "OP_DATA_32", "OP_DATA_33", "OP_DATA_34", "OP_DATA_35",   \* 20
  "OP_DATA_36", "OP_DATA_37", "OP_DATA_38", "OP_DATA_39",   \* 24
  "OP_DATA_40", "OP_DATA_41", "OP_DATA_42", "OP_DATA_43",   \* 28
  "OP_DATA_44", "OP_DATA_45", "OP_DATA_46", "OP_DATA_47",   \* 2c
  "OP_DATA_48", "OP_DATA_49", "OP_DATA_50", "OP_DATA_51",   \* 30
  "OP_DATA_52", "OP_DATA_53", "OP_DATA_54", "OP_DATA_55",   \* 34
  "OP_DATA_56", "OP_DATA_57", "OP_DATA_58", "OP_DATA_59",   \* 38
  "OP_DATA_60", "OP_DATA_61", "OP_DATA_62", "OP_DATA_63",   \* 3c
  "OP_DATA_64", "OP_DATA_65", "OP_DATA_66", "OP_DATA_67",   \* 40
  "OP_DATA_68", "OP_DATA_69", "OP_DATA_70", "OP_DATA_71",   \* 44
  "OP_DATA_72", "OP_DATA_73", "OP_DATA_74", "OP_DATA_75",   \* 48
  "OP_PUSHDATA1", "OP_PUSHDATA2", "OP_PUSHDATA4", "OP_1NEGATE",   \* 4c
  "OP_BASE", "OP_TRUE", "OP_2", "OP_3",   \* 50
  "OP_4", "OP_5", "OP_6", "OP_7",   \* 54
  "OP_8", "OP_9", "OP_10", "OP_11",   \* 58
  "OP_12", "OP_13", "OP_14", "OP_15",   \* 5c
  "OP_16", "OP_NOP", "OP_VER", "OP_IF",   \* 60
  "OP_NOTIF", "OP_VERIF", "OP_VERNOTIF", "OP_ELSE",   \* 64
  "OP_ENDIF", "OP_VERIFY", "OP_RETURN", "OP_TOALTSTACK",   \* 68
  "OP_FROMALTSTACK", "OP_2DROP", "OP_2DUP", "OP_3DUP",   \* 6c
  "OP_2OVER", "OP_2ROT", "OP_2SWAP", "OP_IFDUP",   \* 70
  "OP_DEPTH", "OP_DROP", "OP_DUP", "OP_NIP",   \* 74
  "OP_OVER", "OP_PICK", "OP_ROLL", "OP_ROT",   \* 78
  "OP_SWAP", "OP_TUCK", "OP_CAT", "OP_SPLIT",   \* 7c
  "OP_NUM2BIN", "OP_BIN2NUM", "OP_SIZE", "OP_INVERT",   \* 80
  "OP_AND", "OP_OR", "OP_XOR", "OP_EQUAL",   \* 84
  "OP_EQUALVERIFY", "OP_RESERVED1", "OP_RESERVED2", "OP_1ADD",   \* 88
  "OP_1SUB", "OP_2MUL", "OP_2DIV", "OP_NEGATE",   \* 8c
  "OP_ABS", "OP_NOT", "OP_0NOTEQUAL", "OP_ADD",   \* 90
  "OP_SUB", "OP_MUL", "OP_DIV", "OP_MOD",   \* 94
  "OP_LSHIFT", "OP_RSHIFT", "OP_BOOLAND", "OP_BOOLOR",   \* 98
  "OP_NUMEQUAL", "OP_NUMEQUALVERIFY", "OP_NUMNOTEQUAL", "OP_LESSTHAN",   \* 9c
  "OP_GREATERTHAN", "OP_LESSTHANOREQUAL", "OP_GREATERTHANOREQUAL", "OP_MIN",   \* a0
  "OP_MAX", "OP_WITHIN", "OP_RIPEMD160", "OP_SHA1",   \* a4
  "OP_SHA256", "OP_HASH160", "OP_HASH256", "OP_CODESEPARATOR",   \* a8
  "OP_CHECKSIG", "OP_CHECKSIGVERIFY", "OP_CHECKMULTISIG", "OP_CHECKMULTISIGVERIFY",   \* ac
  "OP_NOP1", "OP_NOP2", "OP_NOP3", "OP_NOP4",   \* b0
  "OP_NOP5", "OP_NOP6", "OP_NOP7", "OP_NOP8",   \* b4
  "OP_NOP9", "OP_NOP10", "OP_UNKNOWN186", "OP_UNKNOWN187",   \* b8
  "OP_UNKNOWN188", "OP_UNKNOWN189", "OP_UNKNOWN190", "OP_UNKNOWN191",   \* bc
  "OP_UNKNOWN192", "OP_UNKNOWN193", "OP_UNKNOWN194", "OP_UNKNOWN195",   \* c0
  "OP_UNKNOWN196", "OP_UNKNOWN197", "OP_UNKNOWN198", "OP_UNKNOWN199",   \* c4
  "OP_UNKNOWN200", "OP_UNKNOWN201", "OP_UNKNOWN202", "OP_UNKNOWN203",   \* c8
  "OP_UNKNOWN204", "OP_UNKNOWN205", "OP_UNKNOWN206", "OP_UNKNOWN207",   \* cc
  "OP_UNKNOWN208", "OP_UNKNOWN209", "OP_UNKNOWN210", "OP_UNKNOWN211",   \* d0
  "OP_UNKNOWN212", "OP_UNKNOWN213", "OP_UNKNOWN214", "OP_UNKNOWN215",   \* d4
  "OP_UNKNOWN216", "OP_UNKNOWN217", "OP_UNKNOWN218", "OP_UNKNOWN219",   \* d8
  "OP_UNKNOWN220", "OP_UNKNOWN221", "OP_UNKNOWN222", "OP_UNKNOWN223",   \* dc
  "OP_UNKNOWN224", "OP_UNKNOWN225", "OP_UNKNOWN226", "OP_UNKNOWN227",   \* e0
  "OP_UNKNOWN228", "OP_UNKNOWN229", "OP_UNKNOWN230", "OP_UNKNOWN231",   \* e4
  "OP_UNKNOWN232", "OP_UNKNOWN233", "OP_UNKNOWN234", "OP_UNKNOWN235",   \* e8
  "OP_UNKNOWN236", "OP_UNKNOWN237", "OP_UNKNOWN238", "OP_UNKNOWN239",   \* ec
  "OP_UNKNOWN240", "OP_UNKNOWN241", "OP_UNKNOWN242", "OP_UNKNOWN243",   \* f0
  "OP_UNKNOWN244", "OP_UNKNOWN245", "OP_UNKNOWN246", "OP_UNKNOWN247",   \* f4
  "OP_UNKNOWN248", "OP_UNKNOWN249", "OP_SMALLINTEGER", "OP_PUBKEYS",   \* f8
  "OP_UNKNOWN252", "OP_PUBKEYHASH", "OP_PUBKEY", "OP_INVALIDOPCODE"   \* fc
>>
OpAliases == <<
  <<"OP_0", 0>>,
  <<"OP_ZERO", 0>>,
  <<"OP_RESERVED", 80>>,
  <<"OP_1", 81>>,
  <<"OP_ONE", 81>>
>>

AllNames == {OpNames[i] : i \in 1..256} \cup {OpAliases[i][1] : i \in 1..Len(OpAliases)}
OpValue == [n \in AllNames |->
             IF \E i \in 1..256 : OpNames[i] = n THEN (CHOOSE i \in 1..256 : OpNames[i] = n) - 1
             ELSE OpAliases[CHOOSE i \in 1..Len(OpAliases) : OpAliases[i][1] = n][2]]
OpName == [c \in 0..255 |-> Ascii(OpNames[c + 1])]

OP_0 == 0  OP_1 == 81  OP_16 == 96  OP_RETURN == 106  OP_DUP == 118  OP_EQUAL == 135  OP_EQUALVERIFY == 136
OP_HASH160 == 169  OP_CHECKSIG == 172  OP_CHECKMULTISIG == 174  OP_BASE == 80
=============================================================================
