import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonObject;
import com.google.gson.JsonParser;
import io.netty.buffer.AbstractByteBufAllocator;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.CompositeByteBuf;
import io.netty.buffer.PoolArenaMetric;
import io.netty.buffer.PooledByteBufAllocator;
import io.netty.buffer.Unpooled;
import io.netty.buffer.UnpooledByteBufAllocator;
import io.netty.buffer.UnpooledDirectByteBuf;
import io.netty.buffer.UnpooledHeapByteBuf;
import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.File;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Modifier;
import java.lang.reflect.ParameterizedType;
import java.lang.reflect.Proxy;
import java.lang.reflect.Type;
import java.net.URL;
import java.net.URLClassLoader;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.HashMap;
import java.util.HashSet;
import java.util.IdentityHashMap;
import java.util.LinkedHashMap;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.CopyOnWriteArrayList;
import java.util.function.Supplier;

/**
 * Executes programs (one JSON object per input line) against the real classes, through their public
 * API only, and writes one event per call: the call, its outcome and the observable state after it.
 *
 * <p>usage: Exec CLASSES_DIR SCHEMA.json PROGRAMS.ndjson TRACE.ndjson
 */
public class Exec {

  static Map<String, JsonArray> tables = new HashMap<>();
  static Map<String, String> packages = new HashMap<>();
  static final int PATIENCE = Integer.getInteger("patience", 60); // seconds for one call
  static volatile long since; // start of the running call, 0 if none
  static volatile JsonObject running;
  static StringBuilder current;
  static BufferedWriter output;
  static URL[] repoUrls;
  static URL[] pointsUrls; // the same classes with scheduling points
  static World defaultWorld, pointsWorld;

  public static void main(String[] a) throws Exception {
    File user = new File(a[0] + ".user");
    user.mkdirs();
    repoUrls = new URL[] {new File(a[0]).toURI().toURL(), user.toURI().toURL()};
    pointsUrls = new URL[] {new File(a[0] + ".points").toURI().toURL(), user.toURI().toURL()};
    JsonObject schema =
        JsonParser.parseString(new String(Files.readAllBytes(Paths.get(a[1])), StandardCharsets.UTF_8))
            .getAsJsonArray().get(0).getAsJsonObject();
    for (Map.Entry<String, JsonElement> e : schema.getAsJsonObject("tables").entrySet())
      tables.put(e.getKey(), e.getValue().getAsJsonArray());
    for (Map.Entry<String, JsonElement> e : schema.getAsJsonObject("packages").entrySet())
      packages.put(e.getKey(), e.getValue().getAsString());
    try (BufferedReader in = Files.newBufferedReader(Paths.get(a[2]));
        BufferedWriter out = Files.newBufferedWriter(Paths.get(a[3]))) {
      output = out;
      Thread dog = new Thread(Exec::watch);
      dog.setDaemon(true);
      dog.start();
      String line;
      while ((line = in.readLine()) != null) {
        if (line.isEmpty()) continue;
        JsonObject p = JsonParser.parseString(line).getAsJsonObject();
        run(p, out);
      }
    }
    System.exit(0);
  }

  /** A call that does not return becomes the last event of the trace. */
  static void watch() {
    try {
      while (true) {
        Thread.sleep(1000);
        long t = since;
        if (t != 0 && System.nanoTime() - t > PATIENCE * 1000000000L) {
          output.write(current.toString());
          output.write("{\"op\":\"hang\",\"in\":" + running + "}\n");
          output.close();
          Runtime.getRuntime().halt(77);
        }
      }
    } catch (Exception e) {
      e.printStackTrace();
      Runtime.getRuntime().halt(3);
    }
  }

  static boolean flag(JsonObject o, String k) {
    return o.has(k) && o.get(k).getAsBoolean();
  }

  static void run(JsonObject p, BufferedWriter out) throws Exception {
    World w;
    boolean inst = flag(p, "inst");
    if (flag(p, "fresh")) w = new World(inst);
    else if (inst) {
      if (pointsWorld == null) pointsWorld = new World(true);
      w = pointsWorld;
    }
    else {
      if (defaultWorld == null) defaultWorld = new World(false);
      w = defaultWorld;
    }
    Session s = new Session(w, flag(p, "full"));
    StringBuilder sb = new StringBuilder();
    current = sb;
    sb.append("{\"op\":\"begin\",\"id\":").append(p.get("id")).append(",\"full\":").append(s.full).append("}\n");
    for (JsonElement e : p.getAsJsonArray("ops")) {
      JsonObject op = e.getAsJsonObject();
      running = op;
      since = System.nanoTime();
      if (op.get("op").getAsString().equals("par")) Par.run(s, op, sb);
      else s.step(op, sb, s.full);
      since = 0;
    }
    out.write(sb.toString());
    s.dispose();
  }

  /** One copy of the library: its classes and their static state. */
  static class World {
    final ClassLoader loader;
    final Map<String, Class<?>> classes = new HashMap<>();
    final Map<Class<?>, String> ids = new HashMap<>();
    final Map<Class<?>, Map<String, Method>> methods = new HashMap<>();
    final Class<?> serviceClass;
    final Object registry;
    final Map<Object, String> svcIds = new IdentityHashMap<>();
    final Method encode;
    final Method decode;

    World(boolean points) throws Exception {
      loader = new URLClassLoader(points ? pointsUrls : repoUrls, Exec.class.getClassLoader());
      serviceClass = loader.loadClass("com.finproto.codec.ChecksumService");
      registry = loader.loadClass("com.finproto.codec.ChecksumServiceFactory").getMethod("getInstance").invoke(null);
      Class<?> codec = loader.loadClass("com.finproto.codec.BinaryCodec");
      encode = codec.getMethod("encode", ByteBuf.class);
      decode = codec.getMethod("decode", ByteBuf.class);
    }

    synchronized Class<?> cls(String id) throws Exception {
      Class<?> c = classes.get(id);
      if (c == null) {
        int i = id.indexOf('_');
        c = loader.loadClass(packages.get(id.substring(0, i)) + "." + id.substring(i + 1).replace('_', '$'));
        classes.put(id, c);
        ids.put(c, id);
      }
      return c;
    }

    synchronized String id(Class<?> c) {
      String id = ids.get(c);
      if (id == null) {
        for (Map.Entry<String, String> e : packages.entrySet())
          if (c.getName().startsWith(e.getValue() + "."))
            id = e.getKey() + "_" + c.getName().substring(e.getValue().length() + 1).replace('$', '_');
        if (id == null || !tables.containsKey(id)) id = "?" + c.getName();
        ids.put(c, id);
      }
      return id;
    }

    synchronized Method method(Class<?> c, String name, int params) {
      Map<String, Method> ms = methods.computeIfAbsent(c, k -> new HashMap<>());
      String key = name + "/" + params;
      Method m = ms.get(key);
      if (m == null) {
        for (Method x : c.getMethods())
          if (x.getName().equals(name) && x.getParameterCount() == params && !x.isBridge()) m = x;
        if (m == null) throw new IllegalStateException("HARNESS: no method " + c + "." + name);
        m.setAccessible(true);
        ms.put(key, m);
      }
      return m;
    }

    Method getter(Class<?> c, String field) {
      return method(c, "get" + Character.toUpperCase(field.charAt(0)) + field.substring(1), 0);
    }

    Method setter(Class<?> c, String field) {
      return method(c, "set" + Character.toUpperCase(field.charAt(0)) + field.substring(1), 1);
    }

    Object newObj(String id) throws Exception {
      return cls(id).getDeclaredConstructor().newInstance();
    }

    // ---- projection: object -> JSON value -------------------------------------------------

    void message(Object o, StringBuilder sb) throws Exception {
      sb.append("{\"c\":\"").append(id(o.getClass())).append("\",\"v\":");
      fields(o, sb);
      sb.append('}');
    }

    void fields(Object o, StringBuilder sb) throws Exception {
      JsonArray t = tables.get(id(o.getClass()));
      sb.append('[');
      if (t != null)
        for (int i = 0; i < t.size(); i++) {
          JsonObject f = t.get(i).getAsJsonObject();
          if (i > 0) sb.append(',');
          Object x;
          try {
            x = getter(o.getClass(), f.get("n").getAsString()).invoke(o);
          } catch (InvocationTargetException e) { // a getter that fails: a value no specified state has
            String k = f.get("k").getAsString();
            sb.append(k.equals("list") || k.equals("obj") || k.equals("dyn") ? "[[],[],[]]" : k.equals("fix") || k.equals("var") ? "[[-1]]" : "[-1]");
            continue;
          }
          value(f, x, sb);
        }
      sb.append(']');
    }

    void value(JsonObject f, Object v, StringBuilder sb) throws Exception {
      switch (f.get("k").getAsString()) {
        case "num":
        case "flt":
        case "blen":
        case "chk":
          number(v, sb);
          return;
        case "fix":
        case "var":
          if (v == null) sb.append("[]");
          else {
            sb.append('[');
            text(v.toString(), sb);
            sb.append(']');
          }
          return;
        case "list":
          if (v == null) {
            sb.append("[]");
            return;
          }
          JsonObject el = f.getAsJsonObject("el");
          sb.append("[[");
          boolean first = true;
          for (Object x : (List<?>) v) {
            if (!first) sb.append(',');
            first = false;
            value(el, x, sb);
          }
          sb.append("]]");
          return;
        case "obj":
          if (v == null) {
            sb.append("[]");
            return;
          }
          sb.append('[');
          fields(v, sb);
          sb.append(']');
          return;
        case "dyn":
          if (v == null) {
            sb.append("[]");
            return;
          }
          sb.append("[\"").append(id(v.getClass())).append("\",");
          fields(v, sb);
          sb.append(']');
          return;
        default:
          throw new IllegalStateException();
      }
    }

    // ---- construction: JSON value -> object -----------------------------------------------

    Object build(String id, JsonArray v) throws Exception {
      Object o = newObj(id);
      fill(o, id, v);
      return o;
    }

    void fill(Object o, String id, JsonArray v) throws Exception {
      JsonArray t = tables.get(id);
      for (int i = 0; i < t.size(); i++) setField(o, t.get(i).getAsJsonObject(), v.get(i));
    }

    void setField(Object o, JsonObject f, JsonElement v) throws Exception {
      Method m = setter(o.getClass(), f.get("n").getAsString());
      m.invoke(o, convert(f, v, m.getParameterTypes()[0], m.getGenericParameterTypes()[0]));
    }

    Object convert(JsonObject f, JsonElement v, Class<?> type, Type gtype) throws Exception {
      JsonArray a = v.getAsJsonArray();
      switch (f.get("k").getAsString()) {
        case "num":
        case "flt":
        case "blen":
        case "chk":
          return toNumber(a, type);
        case "fix":
        case "var":
          return a.size() == 0 ? null : toText(a.get(0).getAsJsonArray());
        case "list":
          if (a.size() == 0) return null;
          Type et = gtype instanceof ParameterizedType
                  ? ((ParameterizedType) gtype).getActualTypeArguments()[0] : Object.class;
          Class<?> ec = et instanceof Class ? (Class<?>) et : Object.class;
          List<Object> l = new ArrayList<>();
          for (JsonElement x : a.get(0).getAsJsonArray()) l.add(convert(f.getAsJsonObject("el"), x, ec, et));
          return type.isAssignableFrom(List.class) ? listLike(l, v.hashCode()) : l;
        case "obj":
          return a.size() == 0 ? null : build(f.get("c").getAsString(), a.get(0).getAsJsonArray());
        case "dyn":
          return a.size() == 0 ? null : build(a.get(0).getAsString(), a.get(1).getAsJsonArray());
        default:
          throw new IllegalStateException();
      }
    }

    /** The lists a caller might use. */
    static List<Object> listLike(List<Object> l, int which) {
      switch (Math.floorMod(which, 9)) {
        case 0:
          return new LinkedList<>(l);
        case 1:
          return Arrays.asList(l.toArray());
        case 2:
          return Collections.unmodifiableList(l);
        case 3: // null is neither an element nor may one ask for it
          return l.contains(null) ? l : List.of(l.toArray());
        case 4:
          {
            List<Object> more = new ArrayList<>(l);
            more.add(0, null);
            more.add(null);
            return more.subList(1, more.size() - 1);
          }
        case 5:
          return new CopyOnWriteArrayList<>(l);
        default:
          return l;
      }
    }

    // ---- type factories ---------------------------------------------------------------------

    final Map<String, Object> factories = new HashMap<>();

    synchronized Object factory(String owner) throws Exception {
      Object f = factories.get(owner);
      if (f == null) {
        Class<?> c = cls(owner);
        for (Class<?> d : c.getDeclaredClasses())
          if (d.getSimpleName().endsWith("MessageFactory") && Modifier.isPublic(d.getModifiers()))
            f = d.getMethod("getInstance").invoke(null);
        if (f == null) throw new IllegalStateException("HARNESS: no factory in " + owner);
        factories.put(owner, f);
      }
      return f;
    }

    Method factoryMethod(Object f, String name) {
      for (Method m : f.getClass().getMethods())
        if (m.getName().equals(name) && !m.isBridge()) {
          m.setAccessible(true);
          return m;
        }
      throw new IllegalStateException("HARNESS: no " + name + " in " + f.getClass());
    }

    Object key(JsonElement k, Class<?> type) {
      if (k.isJsonArray()) return toText(k.getAsJsonArray());
      int n = k.getAsInt();
      if (type == Short.class || type == short.class) return (short) n;
      if (type == Long.class || type == long.class) return (long) n;
      if (type == Byte.class || type == byte.class) return (byte) n;
      return n;
    }
  }

  static void text(String s, StringBuilder sb) {
    sb.append('[');
    boolean first = true;
    for (int i = 0; i < s.length(); ) {
      int cp = s.codePointAt(i);
      if (!first) sb.append(',');
      first = false;
      sb.append(cp);
      i += Character.charCount(cp);
    }
    sb.append(']');
  }

  static String toText(JsonArray a) {
    StringBuilder sb = new StringBuilder();
    for (JsonElement e : a) sb.appendCodePoint(e.getAsInt());
    return sb.toString();
  }

  static void number(Object v, StringBuilder sb) {
    if (v instanceof Byte) be(((Byte) v).longValue(), 1, sb);
    else if (v instanceof Short) be(((Short) v).longValue(), 2, sb);
    else if (v instanceof Integer) be(((Integer) v).longValue(), 4, sb);
    else if (v instanceof Long) be((Long) v, 8, sb);
    else if (v instanceof Float) be(Float.floatToRawIntBits((Float) v), 4, sb);
    else if (v instanceof Double) be(Double.doubleToRawLongBits((Double) v), 8, sb);
    else if (v instanceof Character) be((Character) v, 2, sb);
    else if (v instanceof Boolean) be((Boolean) v ? 1 : 0, 1, sb);
    else if (v == null) sb.append("[]");
    else throw new IllegalStateException("HARNESS: number " + v.getClass());
  }

  static void be(long v, int w, StringBuilder sb) {
    sb.append('[');
    for (int i = w - 1; i >= 0; i--) {
      sb.append((v >>> (8 * i)) & 0xFF);
      if (i > 0) sb.append(',');
    }
    sb.append(']');
  }

  static Object toNumber(JsonArray a, Class<?> t) {
    long v = 0;
    for (JsonElement e : a) v = (v << 8) | e.getAsInt();
    if (t == byte.class || t == Byte.class) return (byte) v;
    if (t == short.class || t == Short.class) return (short) v;
    if (t == int.class || t == Integer.class) return (int) v;
    if (t == long.class || t == Long.class) return v;
    if (t == float.class || t == Float.class) return Float.intBitsToFloat((int) v);
    if (t == double.class || t == Double.class) return Double.longBitsToDouble(v);
    if (t == char.class || t == Character.class) return (char) v;
    throw new IllegalStateException("HARNESS: number type " + t);
  }

  static final com.sun.management.ThreadMXBean MEMORY =
      (com.sun.management.ThreadMXBean) java.lang.management.ManagementFactory.getThreadMXBean();

  static byte[] bytes(JsonArray a) {
    byte[] b = new byte[a.size()];
    for (int i = 0; i < b.length; i++) b[i] = (byte) a.get(i).getAsInt();
    return b;
  }

  static void bytes(ByteBuf b, int from, int to, StringBuilder sb) {
    sb.append('[');
    for (int i = from; i < to; i++) {
      if (i > from) sb.append(',');
      sb.append(b.getByte(i) & 0xFF);
    }
    sb.append(']');
  }

  /** The buffers a caller might use. */
  static ByteBuf buffer(String kind, byte[] d, int r, int max) {
    ByteBuf b;
    switch (kind) {
      case "cap": // with room for max bytes
        b = COUNTING.heapBuffer(Math.min(4, max), max);
        b.writeBytes(d);
        break;
      case "capdir":
        b = PooledByteBufAllocator.DEFAULT.directBuffer(Math.min(4, max), max);
        b.writeBytes(d);
        break;
      case "heap":
        b = COUNTING.heapBuffer(4);
        b.writeBytes(d);
        break;
      case "direct":
        b = COUNTING.directBuffer(4);
        b.writeBytes(d);
        break;
      case "pooled":
        b = PooledByteBufAllocator.DEFAULT.heapBuffer(16);
        b.writeBytes(d);
        break;
      case "pooldir":
        b = PooledByteBufAllocator.DEFAULT.directBuffer(16);
        b.writeBytes(d);
        break;
      case "safe": // no unsafe, plain heap array
        b = new UnpooledByteBufAllocator(false, true, true).heapBuffer(8);
        b.writeBytes(d);
        break;
      case "comp":
        {
          CompositeByteBuf c = Unpooled.compositeBuffer(1024);
          for (int i = 0; i < d.length; i += 3)
            c.addComponent(true, Unpooled.copiedBuffer(d, i, Math.min(3, d.length - i)));
          b = c;
          break;
        }
      case "wrap":
        if (d.length == 0) b = Unpooled.buffer(1, 1);
        else b = Unpooled.wrappedBuffer(d.clone());
        break;
      case "slice":
        {
          ByteBuf parent = Unpooled.buffer(7 + d.length + 65536);
          parent.writeZero(7 + d.length + 65536);
          for (int i = 0; i < 7; i++) parent.setByte(i, 0x55);
          b = parent.slice(7, d.length + 65536 - 7);
          b.setIndex(0, 0);
          b.writeBytes(d);
          break;
        }
      case "ro":
        b = Unpooled.wrappedBuffer(d.clone()).asReadOnly();
        break;
      case "rodir":
        {
          ByteBuf x = Unpooled.directBuffer(Math.max(1, d.length));
          x.writeBytes(d);
          b = x.asReadOnly();
          break;
        }
      case "dirty": // stale non-zero bytes beyond the writer index
        b = COUNTING.heapBuffer(64 + 2 * d.length);
        for (int i = 0; i < b.capacity(); i++) b.setByte(i, 0xA5 ^ (i * 7));
        b.writeBytes(d);
        break;
      case "sched":
        b = new Par.SchedBuf();
        b.writeBytes(d);
        break;
      default:
        throw new IllegalStateException("HARNESS: buffer kind " + kind);
    }
    b.readerIndex(r);
    return b;
  }

  /** Knows how many of its buffers have not been released. */
  static class Counting extends AbstractByteBufAllocator {
    final java.util.concurrent.atomic.AtomicInteger live = new java.util.concurrent.atomic.AtomicInteger();

    @Override
    protected ByteBuf newHeapBuffer(int initial, int max) {
      live.incrementAndGet();
      return new UnpooledHeapByteBuf(this, initial, max) {
        @Override
        protected void deallocate() {
          live.decrementAndGet();
          super.deallocate();
        }
      };
    }

    @Override
    protected ByteBuf newDirectBuffer(int initial, int max) {
      live.incrementAndGet();
      return new UnpooledDirectByteBuf(this, initial, max) {
        @Override
        protected void deallocate() {
          live.decrementAndGet();
          super.deallocate();
        }
      };
    }

    @Override
    public boolean isDirectBufferPooled() {
      return false;
    }
  }

  static final Counting COUNTING = new Counting();

  /** The number of buffers that were allocated and not released. */
  static int live() {
    long n = COUNTING.live.get();
    for (PoolArenaMetric a : PooledByteBufAllocator.DEFAULT.metric().heapArenas()) n += a.numActiveAllocations();
    for (PoolArenaMetric a : PooledByteBufAllocator.DEFAULT.metric().directArenas()) n += a.numActiveAllocations();
    return (int) n;
  }

  static class Bitmap {
    final Object bm;
    final int n;
    final Method set, get, clear, write, read, count;

    Bitmap(World w, int n) throws Exception {
      String c = n == 8 ? "Byte" : n == 16 ? "Short" : n == 32 ? "Int" : "Long";
      Class<?> k = w.loader.loadClass("com.finproto.bitmap." + c + "BitMap");
      bm = k.getDeclaredConstructor().newInstance();
      this.n = n;
      set = k.getMethod("set", int.class);
      get = k.getMethod("get", int.class);
      clear = k.getMethod("clear", int.class);
      write = k.getMethod("write", ByteBuf.class);
      read = k.getMethod("read", ByteBuf.class);
      count = k.getMethod("bitCount");
    }

    void project(StringBuilder sb) throws Exception {
      sb.append("{\"n\":").append(count.invoke(bm)).append(",\"bits\":[");
      boolean first = true;
      for (int i = 0; i < n; i++)
        if ((Boolean) get.invoke(bm, i)) {
          if (!first) sb.append(',');
          first = false;
          sb.append(i);
        }
      sb.append("]}");
    }
  }

  /** One program's live objects. */
  static class Session {
    final World w;
    final boolean full;
    final Map<String, Object> heap = Collections.synchronizedMap(new LinkedHashMap<>());
    final Map<String, ByteBuf> bufs = Collections.synchronizedMap(new LinkedHashMap<>());
    final Map<String, Object> svcs = new HashMap<>();
    final Map<String, Bitmap> bms = new LinkedHashMap<>();
    Object codec;

    Session(World w, boolean full) {
      this.w = w;
      this.full = full;
    }

    void dispose() {
      for (ByteBuf b : bufs.values())
        try {
          if (b.refCnt() > 0) b.release(b.refCnt());
        } catch (RuntimeException e) {
          // some buffers cannot be released
        }
    }

    Object codec() throws Exception {
      if (codec == null) codec = w.newObj("sample_EmptyPacket");
      return codec;
    }

    static String str(JsonObject op, String k) {
      return op.get(k).getAsString();
    }

    /** As step, called by one of several threads: only the call itself runs under the schedule. */
    /** A value that is not one of the object's class, because that is not the class it should be. */
    static class Misfit extends RuntimeException {
      Misfit(Throwable e) {
        super(e);
      }
    }

    void stepIn(JsonObject op, StringBuilder sb) throws Exception {
      step(op, sb, false, true);
    }

    static final Set<String> LEAKY = new HashSet<>(Arrays.asList("enc", "dec", "calc", "verify", "fixw", "fixr", "bwrite", "bread"));
    static int leaks = 0;

    void step(JsonObject op, StringBuilder sb, boolean full) throws Exception {
      step(op, sb, full, false);
    }

    /** Runs one call and appends its event. */
    void step(JsonObject op, StringBuilder sb, boolean full, boolean parallel) throws Exception {
      boolean watch = !parallel && LEAKY.contains(str(op, "op"));
      int live = watch ? live() : 0;
      boolean ok = true, err = false;
      String ex = "";
      StringBuilder ret = new StringBuilder();
      StringBuilder extra = new StringBuilder();
      boolean skipped = false;
      try {
        exec(op, ret, extra);
      } catch (InvocationTargetException e) {
        ok = false;
        Throwable t = e.getCause();
        err = t instanceof Error;
        ex = t instanceof IllegalArgumentException ? "IllegalArgumentException" : t.getClass().getSimpleName();
      } catch (IndexOutOfBoundsException | NullPointerException | ClassCastException | Misfit e) {
        // not the library's doing: the program no longer fits, because an earlier call went differently than specified
        skipped = true;
      }
      Object[] me = Par.ME.get();
      Par.ME.remove(); // looking at the result is not part of the call
      if (skipped) {
        sb.append("{\"op\":\"skip\",\"in\":").append(op);
        if (op.has("o")) sb.append(",\"o\":").append(op.get("o"));
        if (op.has("b")) sb.append(",\"b\":").append(op.get("b"));
        ret.setLength(0);
        extra.setLength(0);
      } else {
        String s = op.toString();
        sb.append(s, 0, s.length() - 1);
      }
      sb.append(",\"ok\":").append(ok).append(",\"err\":").append(err).append(",\"ex\":\"").append(ex).append('"');
      sb.append(",\"ret\":").append(ret.length() == 0 ? "[]" : ret);
      sb.append(extra);
      // a few buffers that are kept for later are no leak
      if (watch && !skipped && live() > live && ++leaks > 3) sb.append(",\"leak\":").append(live() - live);
      state(op, sb, full);
      sb.append("}\n");
      if (me != null) Par.ME.set(me);
    }

    void state(JsonObject op, StringBuilder sb, boolean full) throws Exception {
      sb.append(",\"H\":{");
      boolean first = true;
      if (full)
        for (Map.Entry<String, Object> e : heap.entrySet()) {
          if (!first) sb.append(',');
          first = false;
          sb.append('"').append(e.getKey()).append("\":");
          w.message(e.getValue(), sb);
        }
      else if (op.has("o") && !flag(op, "hide") && heap.get(str(op, "o")) != null) {
        sb.append('"').append(str(op, "o")).append("\":");
        w.message(heap.get(str(op, "o")), sb);
      }
      sb.append("},\"B\":{");
      first = true;
      if (full)
        for (Map.Entry<String, ByteBuf> e : bufs.entrySet()) {
          if (!first) sb.append(',');
          first = false;
          buf(e.getKey(), e.getValue(), sb);
        }
      else if (op.has("b") && bufs.get(str(op, "b")) != null) buf(str(op, "b"), bufs.get(str(op, "b")), sb);
      sb.append("},\"M\":{");
      boolean first1 = true;
      for (Map.Entry<String, Bitmap> e : bms.entrySet()) {
        if (!first1) sb.append(',');
        first1 = false;
        sb.append('"').append(e.getKey()).append("\":");
        e.getValue().project(sb);
      }
      sb.append('}');
    }

    static void buf(String name, ByteBuf b, StringBuilder sb) {
      sb.append('"').append(name).append("\":{\"d\":");
      if (b.refCnt() > 0) bytes(b, 0, b.writerIndex(), sb);
      else sb.append("[]");
      sb.append(",\"r\":").append(b.readerIndex()).append(",\"ref\":").append(b.refCnt()).append('}');
    }

    void exec(JsonObject op, StringBuilder ret, StringBuilder extra) throws Exception {
      String kind = str(op, "op");
      switch (kind) {
        case "new":
          heap.put(str(op, "o"), w.newObj(str(op, "c")));
          return;
        case "fill":
          {
            Object o = heap.get(str(op, "o"));
            try {
              w.fill(o, w.id(o.getClass()), op.getAsJsonArray("v"));
            } catch (RuntimeException e) {
              throw new Misfit(e);
            }
            return;
          }
        case "set":
          try {
            set(op);
          } catch (RuntimeException e) {
            throw new Misfit(e);
          }
          return;
        case "add": // an element is added to a list that the message gave out
        case "drop": // the last one is removed
          alter(op);
          return;
        case "share": // the same list or body in another message
          {
            Object o = heap.get(str(op, "from")), q = heap.get(str(op, "o"));
            String f = tables.get(w.id(o.getClass())).get(op.get("i").getAsInt() - 1).getAsJsonObject().get("n").getAsString();
            invoke(w.setter(q.getClass(), f), q, invoke(w.getter(o.getClass(), f), o));
            return;
          }
        case "view":
          return;
        case "eq":
          {
            Object a = heap.get(str(op, "a")), b = heap.get(str(op, "b"));
            boolean e1 = call(a, b), e2 = call(b, a);
            boolean n = call(a, null), x = call(a, "text");
            ret.append(e1);
            extra.append(",\"sym\":").append(e2).append(",\"null\":").append(n).append(",\"other\":").append(x);
            extra.append(",\"refl\":").append(call(a, a));
            extra.append(",\"ha\":").append(hash(a)).append(",\"hb\":").append(hash(b));
            return;
          }
        case "str":
          try {
            text(heap.get(str(op, "o")).toString(), ret);
          } catch (RuntimeException | StackOverflowError e) {
            throw new InvocationTargetException(e);
          }
          return;
        case "buf":
          bufs.put(str(op, "b"), buffer(str(op, "kind"), bytes(op.getAsJsonArray("d")), op.get("r").getAsInt(),
              op.has("max") ? op.get("max").getAsInt() : Integer.MAX_VALUE));
          return;
        case "write":
          bufs.get(str(op, "b")).writeBytes(bytes(op.getAsJsonArray("d")));
          return;
        case "patch":
          bufs.get(str(op, "b")).setByte(op.get("i").getAsInt(), op.get("x").getAsInt());
          return;
        case "scribble":
          {
            ByteBuf b = bufs.get(str(op, "b"));
            for (int i = 0; i < b.writerIndex(); i++) b.setByte(i, 255 - (b.getByte(i) & 255));
            return;
          }
        case "mark":
          bufs.get(str(op, "b")).markReaderIndex();
          return;
        case "reset":
          try {
            bufs.get(str(op, "b")).resetReaderIndex();
          } catch (IndexOutOfBoundsException e) {
            throw new InvocationTargetException(e);
          }
          return;
        case "seek":
          bufs.get(str(op, "b")).readerIndex(op.get("r").getAsInt());
          return;
        case "compact":
          {
            ByteBuf b = bufs.get(str(op, "b"));
            if (b instanceof CompositeByteBuf) ((CompositeByteBuf) b).discardReadBytes();
            else b.discardReadBytes();
            return;
          }
        case "clear":
          bufs.get(str(op, "b")).clear();
          return;
        case "release":
          {
            ByteBuf b = bufs.remove(str(op, "b"));
            boolean freed = b.release();
            ret.append(freed && b.refCnt() == 0);
            return;
          }
        case "enc":
          invoke(w.encode, heap.get(str(op, "o")), bufs.get(str(op, "b")));
          return;
        case "dec":
          {
            long id = Thread.currentThread().getId();
            long had = MEMORY.getThreadAllocatedBytes(id);
            try {
              invoke(w.decode, heap.get(str(op, "o")), bufs.get(str(op, "b")));
            } finally {
              extra.append(",\"mem\":").append((MEMORY.getThreadAllocatedBytes(id) - had) >> 20);
            }
            return;
          }
        case "trunc":
          trunc(op, ret, extra);
          return;
        case "svc":
          svcs.put(str(op, "s"), service(str(op, "s"), str(op, "alg"), str(op, "impl")));
          return;
        case "calc":
          be(((Number) invoke(w.serviceClass.getMethod("calc", Object.class), svcs.get(str(op, "s")),
                  bufs.get(str(op, "b")))).longValue(), 4, ret);
          return;
        case "verify":
          {
            Object x = toNumber(op.getAsJsonArray("x"), int.class);
            ret.append(invoke(w.serviceClass.getMethod("verify", Object.class, Object.class), svcs.get(str(op, "s")),
                bufs.get(str(op, "b")), x));
            return;
          }
        case "reg":
          ret.append(invoke(w.registry.getClass().getMethod("registry", w.serviceClass), w.registry, svcs.get(str(op, "s"))));
          return;
        case "unreg":
          invoke(w.registry.getClass().getMethod("removeChecksumService", String.class), w.registry, str(op, "n"));
          return;
        case "regclr":
          invoke(w.registry.getClass().getMethod("clearAllChecksumService"), w.registry);
          return;
        case "look":
          {
            Object x = invoke(w.registry.getClass().getMethod("getChecksumService", String.class), w.registry, str(op, "n"));
            ret.append('"').append(x == null ? "" : w.svcIds.getOrDefault(x, "dflt")).append('"');
            return;
          }
        case "treg":
          {
            Object f = w.factory(str(op, "w"));
            Method m = w.factoryMethod(f, "register");
            Class<?> c = w.cls(str(op, "c"));
            Supplier<Object> sup = () -> {
              try {
                return c.getDeclaredConstructor().newInstance();
              } catch (Exception e) {
                throw new IllegalStateException(e);
              }
            };
            Object[] args = new Object[m.getParameterCount()];
            for (int i = 0; i < args.length; i++) {
              Class<?> t = m.getParameterTypes()[i];
              args[i] = t == Class.class ? c : t == Supplier.class ? sup : w.key(op.get("k"), t);
            }
            invoke(m, f, args);
            return;
          }
        case "trem":
          {
            Object f = w.factory(str(op, "w"));
            Method m = w.factoryMethod(f, "remove");
            ret.append(invoke(m, f, w.key(op.get("k"), m.getParameterTypes()[0])));
            return;
          }
        case "tnew":
          {
            Object f = w.factory(str(op, "w"));
            Method m = w.factoryMethod(f, "create");
            Object x = invoke(m, f, w.key(op.get("k"), m.getParameterTypes()[0]));
            heap.put(str(op, "o"), x);
            ret.append('"').append(w.id(x.getClass())).append('"');
            return;
          }
        case "tof":
          {
            Object f = w.factory("sse_SseBinary");
            Object x = invoke(w.factoryMethod(f, "getMsgType"), f, w.cls(str(op, "c")));
            ret.append(x == null ? -1 : ((Number) x).intValue());
            return;
          }
        case "mtype": // the enumeration of the assigned ids
          {
            Object f = w.factory("sse_SseBinary");
            Class<?> k = null;
            for (Class<?> d : f.getClass().getDeclaredClasses()) if (d.isEnum()) k = d;
            if (k == null) throw new ClassCastException("no enumeration");
            Object x = invoke(k.getMethod("fromValue", int.class), null, op.get("k").getAsInt());
            ret.append(invoke(k.getMethod("getValue"), x));
            return;
          }
        case "trim":
          {
            Class<?> k = w.loader.loadClass("com.finproto.codec.BinaryCodec");
            text((String) invoke(k.getMethod("trimByChar", String.class, char.class, boolean.class), null,
                toText(op.getAsJsonArray("t")), (char) op.get("pad").getAsInt(), op.get("left").getAsBoolean()), ret);
            return;
          }
        case "bm":
          bms.put(str(op, "m"), new Bitmap(w, op.get("n").getAsInt()));
          return;
        case "bset":
          {
            Bitmap m = bms.get(str(op, "m"));
            invoke(m.set, m.bm, op.get("p").getAsInt());
            return;
          }
        case "bclr":
          {
            Bitmap m = bms.get(str(op, "m"));
            invoke(m.clear, m.bm, op.get("p").getAsInt());
            return;
          }
        case "bwrite":
          {
            Bitmap m = bms.get(str(op, "m"));
            invoke(m.write, m.bm, bufs.get(str(op, "b")));
            return;
          }
        case "bread":
          {
            Bitmap m = bms.get(str(op, "m"));
            invoke(m.read, m.bm, bufs.get(str(op, "b")));
            return;
          }
        case "fixw":
        case "fixr":
          {
            boolean wr = kind.equals("fixw");
            Class<?> k = w.loader.loadClass("com.finproto.codec.BinaryCodec");
            ByteBuf b = bufs.get(str(op, "b"));
            int n = op.get("n").getAsInt();
            char pad = (char) op.get("pad").getAsInt();
            boolean left = op.get("left").getAsBoolean();
            boolean brief = flag(op, "brief"); // the overload without padding arguments
            Object x;
            if (wr) {
              JsonArray t = op.getAsJsonArray("t");
              String s = t.size() == 0 ? null : toText(t.get(0).getAsJsonArray());
              if (brief) invoke(k.getMethod("writeFixedString", ByteBuf.class, String.class, int.class), codec(), b, s, n);
              else invoke(k.getMethod("writeFixedString", ByteBuf.class, String.class, int.class, char.class, boolean.class),
                      codec(), b, s, n, pad, left);
            } else {
              if (brief) x = invoke(k.getMethod("readFixedString", ByteBuf.class, int.class), codec(), b, n);
              else x = invoke(k.getMethod("readFixedString", ByteBuf.class, int.class, char.class, boolean.class),
                      codec(), b, n, pad, left);
              text((String) x, ret);
            }
            return;
          }
        default:
          throw new IllegalStateException("HARNESS: op " + kind);
      }
    }

    static boolean call(Object a, Object b) throws InvocationTargetException {
      try {
        return a.equals(b);
      } catch (RuntimeException | StackOverflowError e) {
        throw new InvocationTargetException(e);
      }
    }

    static int hash(Object a) throws InvocationTargetException {
      try {
        return a.hashCode();
      } catch (RuntimeException | StackOverflowError e) {
        throw new InvocationTargetException(e);
      }
    }

    static Object invoke(Method m, Object target, Object... args) throws Exception {
      return m.invoke(target, args);
    }

    Object service(String name, String alg, String impl) throws Exception {
      String[][] real = {
        {"CRC16", "crc16", "Crc16"}, {"CRC32", "crc32", "Crc32"}, {"SSE_BIN", "sum", "SseBin"}, {"SZSE_BIN", "sum", "SzseBin"}
      };
      Object direct = null;
      String delegate = null;
      for (String[] r : real) {
        Class<?> c = w.loader.loadClass("com.finproto.codec." + r[2] + "ChecksumService");
        if (r[0].equals(alg) && r[1].equals(impl)) direct = c.getDeclaredConstructor().newInstance();
        if (r[1].equals(impl) && delegate == null) delegate = c.getName();
      }
      if (direct == null) {
        final Object d = delegate == null ? null : w.loader.loadClass(delegate).getDeclaredConstructor().newInstance();
        direct = Proxy.newProxyInstance(w.loader, new Class<?>[] {w.serviceClass}, (proxy, m, args) -> {
          switch (m.getName()) {
            case "algorithm":
              return alg;
            case "calc":
              return d == null ? (Object) 0x12345678 : m.invoke(d, args);
            case "verify":
              return d == null ? (Object) Integer.valueOf(0x12345678).equals(args[1]) : m.invoke(d, args);
            case "hashCode":
              return System.identityHashCode(proxy);
            case "equals":
              return proxy == args[0];
            default:
              return "service " + name;
          }
        });
      }
      w.svcIds.put(direct, name);
      return direct;
    }

    void set(JsonObject op) throws Exception {
      Object o = heap.get(str(op, "o"));
      JsonArray path = op.getAsJsonArray("path");
      for (int k = 0; ; k++) {
        JsonObject f = tables.get(w.id(o.getClass())).get(path.get(k).getAsInt() - 1).getAsJsonObject();
        if (k == path.size() - 1) {
          Method m = w.setter(o.getClass(), f.get("n").getAsString());
          invoke(m, o, w.convert(f, op.get("val"), m.getParameterTypes()[0], m.getGenericParameterTypes()[0]));
          return;
        }
        Object x = w.getter(o.getClass(), f.get("n").getAsString()).invoke(o);
        if (f.get("k").getAsString().equals("list")) {
          @SuppressWarnings("unchecked")
          List<Object> l = (List<Object>) x;
          k++;
          int j = path.get(k).getAsInt() - 1;
          if (k == path.size() - 1) {
            Object old = l.get(j);
            Object now = w.convert(f.getAsJsonObject("el"), op.get("val"), old == null ? Object.class : old.getClass(), null);
            try {
              l.set(j, now);
            } catch (UnsupportedOperationException e) { // a list that cannot be changed: replace it
              List<Object> copy = new ArrayList<>(l);
              copy.set(j, now);
              invoke(w.setter(o.getClass(), f.get("n").getAsString()), o, copy);
            }
            return;
          }
          x = l.get(j);
        }
        o = x;
      }
    }

    /** Changes a list that a message gives out, in place. */
    void alter(JsonObject op) throws Exception {
      Object o = heap.get(str(op, "o"));
      JsonArray path = op.getAsJsonArray("path");
      JsonObject f = null;
      for (int k = 0; k < path.size(); k++) {
        f = tables.get(w.id(o.getClass())).get(path.get(k).getAsInt() - 1).getAsJsonObject();
        if (k == path.size() - 1) break;
        Object x = invoke(w.getter(o.getClass(), f.get("n").getAsString()), o);
        o = f.get("k").getAsString().equals("list") ? ((List<?>) x).get(path.get(++k).getAsInt() - 1) : x;
      }
      Method st = w.setter(o.getClass(), f.get("n").getAsString());
      @SuppressWarnings("unchecked")
      List<Object> l = (List<Object>) invoke(w.getter(o.getClass(), f.get("n").getAsString()), o);
      List<Object> more = new ArrayList<>();
      if (str(op, "op").equals("add")) {
        JsonArray one = new JsonArray(), wrapped = new JsonArray();
        one.add(op.get("val"));
        wrapped.add(one);
        @SuppressWarnings("unchecked")
        List<Object> fresh = (List<Object>) w.convert(f, wrapped, st.getParameterTypes()[0], st.getGenericParameterTypes()[0]);
        if (l == null) {
          invoke(st, o, fresh);
          return;
        }
        try {
          l.addAll(fresh);
          return;
        } catch (UnsupportedOperationException e) { // it may not be changed in place
          more.addAll(l);
          more.addAll(fresh);
        }
      } else {
        if (l != null && !l.isEmpty())
          try {
            l.remove(l.size() - 1);
            return;
          } catch (UnsupportedOperationException e) {
            more.addAll(l.subList(0, l.size() - 1));
          }
      }
      invoke(st, o, more);
    }

    /** Encodes the message, then decodes every strict prefix of the bytes into a new message. */
    void trunc(JsonObject op, StringBuilder ret, StringBuilder extra) throws Exception {
      Object o = heap.get(str(op, "o"));
      String c = w.id(o.getClass());
      ByteBuf e = Unpooled.buffer();
      invoke(w.encode, o, e);
      byte[] d = new byte[e.writerIndex()];
      e.getBytes(0, d);
      int n = d.length;
      boolean tail = str(op, "kind").equals("tail");
      StringBuilder bad = new StringBuilder();
      int tried = 0;
      boolean refs = true;
      int step = op.has("step") ? op.get("step").getAsInt() : 1;
      for (int k = 0; k < n; k++) {
        if (n - k > 64 && k % step != 0) continue;
        ByteBuf b;
        if (tail) { // the missing bytes are there, beyond the writer index
          b = Unpooled.buffer(n + 16);
          b.writeBytes(d);
          b.writerIndex(k);
        } else {
          byte[] p = new byte[k];
          System.arraycopy(d, 0, p, 0, k);
          b = buffer(str(op, "kind"), p, 0, Integer.MAX_VALUE);
        }
        Object t = w.newObj(c);
        tried++;
        int code;
        try {
          w.decode.invoke(t, b);
          code = 1;
        } catch (InvocationTargetException x) {
          code = x.getCause() instanceof Error ? 2 : 0;
        }
        if (code == 0 && b.readerIndex() > b.writerIndex()) code = 3;
        if (code != 0) {
          if (bad.length() > 0) bad.append(',');
          bad.append('[').append(k).append(',').append(code).append(']');
        }
        if (b.refCnt() != 1) refs = false;
        else b.release();
      }
      ret.append('[').append(bad).append(']');
      extra.append(",\"c\":\"").append(c).append("\",\"d\":");
      bytes(e, 0, n, extra);
      extra.append(",\"tried\":").append(tried).append(",\"refs\":").append(refs);
      e.release();
    }
  }
}
