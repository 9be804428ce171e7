SPECIFICATION TraceSpec
VIEW TraceView
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Bug = {}
  Known = {"bitmap16-position0"}
  Watch = {"enc.ok","enc.ref","enc.append","enc.bytes","enc.len","enc.chk","enc.pure","enc.same","relay","dec.ro","dec.ref","dec.over","dec.err","dec.ok","dec.take","dec.rt","dec.peer","dec.list","dec.fix","dec.any","dec.accept","types.frame","types.ext","dec.same","trunc","trunc.ref","eq","hash","str","calc","calc.ro","reg","fresh","init","setget","bm","bmwire","bm.bytes","fix","released","others","bufothers","unlinked"}
