---------------------------- MODULE SchemaUser ----------------------------
(* Wire tables of message classes that a user of the library wrote (harness/user), to be
   registered with its type factories next to the assigned ones. *)
EXTENDS WireKinds

UserPackage == "com.finproto.user"

user_Blob ==
  << N("small", 1, BE),
     N("large", 8, LE),
     F("ratio", 4, BE),
     SP("code", 7, 48, TRUE),
     SP("tag", 5, 0, FALSE),
     V("note", 2, LE),
     L("items", 2, BE, O("", "user_Item")) >>

user_Item ==
  << N("x", 2, LE),
     S("y", 3) >>

user_Logout ==
  << N("session", 4, LE),
     S("reason", 6) >>

user_Nothing ==
  <<  >>

UserMessages ==
  [ user_Blob |-> user_Blob,
    user_Item |-> user_Item,
    user_Logout |-> user_Logout,
    user_Nothing |-> user_Nothing ]
=============================================================================
