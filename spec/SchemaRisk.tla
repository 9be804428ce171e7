---------------------------- MODULE SchemaRisk ----------------------------
(* Wire tables of the RISK protocol: for every message class the ordered list of its
   wire fields.  See WireKinds.tla for the field constructors. *)
EXTENDS WireKinds

RiskPackage == "com.finproto.risk.bin.messages"

risk_CancelReject ==
  << V("uniqueOrderId", 4, BE),
     V("uniqueOrigOrderId", 4, BE),
     V("clOrdId", 4, BE),
     V("origClOrdId", 4, BE),
     N("cxlRejReason", 4, BE) >>

risk_ExecutionReport ==
  << V("uniqueOrderId", 4, BE),
     V("clOrdId", 4, BE),
     V("ordCnfmId", 4, BE),
     N("lastPx", 8, BE),
     N("lastQty", 8, BE),
     S("ordStatus", 1) >>

risk_NewOrder ==
  << V("uniqueOrderId", 4, BE),
     V("clOrdId", 4, BE),
     V("securityId", 4, BE),
     S("side", 1),
     N("price", 8, BE),
     N("orderQty", 8, BE),
     S("ordType", 1),
     V("account", 4, BE) >>

risk_OrderCancel ==
  << V("uniqueOrderId", 4, BE),
     V("uniqueOrigOrderId", 4, BE),
     V("clOrdId", 4, BE),
     V("origClOrdId", 4, BE),
     V("securityId", 4, BE) >>

risk_OrderConfirm ==
  << V("uniqueOrderId", 4, BE),
     V("uniqueOrigOrderId", 4, BE),
     V("clOrdId", 4, BE),
     S("execType", 1),
     N("ordRejReason", 4, BE),
     V("ordCnfmId", 4, BE) >>

risk_RcBinary ==
  << N("msgType", 4, BE),
     N("version", 4, BE),
     BLEN("msgBodyLen", 4, BE),
     D("body", "msgType") >>

risk_RiskResult ==
  << V("uniqueOrderId", 4, BE),
     N("riskStatus", 1, BE),
     V("riskReason", 4, BE) >>

RiskMessages ==
  [ risk_CancelReject |-> risk_CancelReject,
    risk_ExecutionReport |-> risk_ExecutionReport,
    risk_NewOrder |-> risk_NewOrder,
    risk_OrderCancel |-> risk_OrderCancel,
    risk_OrderConfirm |-> risk_OrderConfirm,
    risk_RcBinary |-> risk_RcBinary,
    risk_RiskResult |-> risk_RiskResult ]

(* RcBinary: selector -> class of its dynamic part *)
risk_RcBinary_Types ==
  << <<100101, "risk_NewOrder">>,
     <<200102, "risk_OrderConfirm">>,
     <<200115, "risk_ExecutionReport">>,
     <<190007, "risk_OrderCancel">>,
     <<290008, "risk_CancelReject">>,
     <<800001, "risk_RiskResult">> >>

=============================================================================
