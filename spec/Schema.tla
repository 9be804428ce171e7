------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* All five protocols together: wire tables of every message class and the *)
(* factory (initial) type tables of every class with a dynamic part.       *)
(* A type table is a sequence of <<selector, class>>; selectors of the     *)
(* frames are integers, those of the extensions are texts (code points).   *)
(***************************************************************************)
EXTENDS WireKinds, Bytes, SchemaSse, SchemaSzse, SchemaBjse, SchemaRisk, SchemaSample, SchemaUser

Tables == SseMessages @@ SzseMessages @@ BjseMessages @@ RiskMessages @@ SampleMessages @@ UserMessages

Classes == DOMAIN Tables

Packages == [ sse |-> SsePackage, szse |-> SzsePackage, bjse |-> BjsePackage,
              risk |-> RiskPackage, sample |-> SamplePackage, user |-> UserPackage ]

(* code points of a string of printable ASCII *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([ c \in { SubSeq(Printable, i, i) : i \in 1..95 } |->
                      31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c) ])
Cps(str) == TLCEval([ i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)] ])

TextKeys(t) == TLCEval([ i \in 1..Len(t) |-> << Cps(t[i][1]), t[i][2] >> ])

DefaultTypes == TLCEval(
  [ sse_SseBinary                |-> sse_SseBinary_Types,
    szse_SzseBinary              |-> szse_SzseBinary_Types,
    bjse_BjseBinary              |-> bjse_BjseBinary_Types,
    risk_RcBinary                |-> risk_RcBinary_Types,
    sample_RootPacket            |-> sample_RootPacket_Types,
    szse_NewOrder                |-> TextKeys(szse_NewOrder_Types),
    szse_ExecutionConfirm        |-> TextKeys(szse_ExecutionConfirm_Types),
    szse_ExecutionReport         |-> TextKeys(szse_ExecutionReport_Types),
    bjse_NewOrder                |-> TextKeys(bjse_NewOrder_Types),
    bjse_ExecutionConfirm        |-> TextKeys(bjse_ExecutionConfirm_Types),
    bjse_ExecutionReport         |-> TextKeys(bjse_ExecutionReport_Types),
    bjse_Quote                   |-> TextKeys(bjse_Quote_Types),
    bjse_QuoteResponse           |-> TextKeys(bjse_QuoteResponse_Types),
    bjse_AllegeQuote             |-> TextKeys(bjse_AllegeQuote_Types),
    bjse_QuoteStatusReport       |-> TextKeys(bjse_QuoteStatusReport_Types),
    bjse_TradeCaptureReport      |-> TextKeys(bjse_TradeCaptureReport_Types),
    bjse_TradeCaptureReportAck   |-> TextKeys(bjse_TradeCaptureReportAck_Types),
    bjse_TradeCaptureConfirm     |-> TextKeys(bjse_TradeCaptureConfirm_Types),
    bjse_TradeCaptureCofirm      |-> TextKeys(bjse_TradeCaptureCofirm_Types) ])

Owners == DOMAIN DefaultTypes
Frames == { "sse_SseBinary", "szse_SzseBinary", "bjse_BjseBinary", "risk_RcBinary", "sample_RootPacket" }
NoRegistration == { "bjse_TradeCaptureCofirm" }     \* its table cannot be changed at run time

(* index of a field by name; 0 if there is none *)
IndexOf(c, n) == LET t == Tables[c] IN
  IF \E i \in 1..Len(t) : t[i].n = n THEN CHOOSE i \in 1..Len(t) : t[i].n = n ELSE 0
FieldsOfKind(c, k) == { i \in 1..Len(Tables[c]) : Tables[c][i].k = k }

(* sanity of the tables *)
FieldOk(t, i) ==
  LET f == t[i] IN
  /\ f.k = "dyn" => \E j \in 1..(i - 1) : t[j].n = f.sel /\ t[j].k \in {"num", "fix"}
  /\ f.k = "obj" => f.c \in Classes
  /\ f.k = "list" /\ f.el.k = "obj" => f.el.c \in Classes
  /\ f.k = "chk" => i = Len(t) \/ \A j \in (i + 1)..Len(t) : t[j].k # "dyn"
ASSUME \A c \in Classes : \A i \in 1..Len(Tables[c]) : FieldOk(Tables[c], i)
ASSUME \A c \in Classes : \A i, j \in 1..Len(Tables[c]) : Tables[c][i].n = Tables[c][j].n => i = j
ASSUME \A o \in Owners : \A i \in 1..Len(DefaultTypes[o]) :
          /\ DefaultTypes[o][i][2] \in Classes
          /\ \A j \in 1..Len(DefaultTypes[o]) : DefaultTypes[o][i][1] = DefaultTypes[o][j][1] => i = j
ASSUME \A o \in Owners : FieldsOfKind(o, "dyn") # {}
ASSUME \A c \in Classes : FieldsOfKind(c, "dyn") # {} => c \in Owners
=============================================================================
