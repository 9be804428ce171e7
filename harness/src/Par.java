import com.google.gson.JsonArray;
import com.google.gson.JsonElement;
import com.google.gson.JsonObject;
import io.netty.buffer.ByteBuf;
import io.netty.buffer.UnpooledByteBufAllocator;
import io.netty.buffer.UnpooledHeapByteBuf;
import java.io.IOException;
import java.io.InputStream;
import java.nio.ByteBuffer;
import java.util.concurrent.CyclicBarrier;

/**
 * Runs the calls of several threads under a given schedule. A thread stops before every access to a
 * "sched" buffer; the schedule says which thread goes on, and for how many accesses. Afterwards one
 * event per call is written, thread by thread.
 */
public class Par {
  static class Token {
    final int n;
    final int[][] sched; // {thread, accesses}
    int pos = 0, left;
    final boolean[] done;
    final boolean[] waiting; // in await
    final boolean[] stuck; // waits for a lock that another thread has
    final Thread[] threads;

    Token(int n, int[][] sched) {
      this.n = n;
      this.sched = sched;
      done = new boolean[n];
      waiting = new boolean[n];
      stuck = new boolean[n];
      threads = new Thread[n];
      left = sched.length == 0 ? 0 : sched[0][1];
    }

    int current() {
      while (pos < sched.length && (left <= 0 || done[sched[pos][0]] || stuck[sched[pos][0]])) {
        pos++;
        if (pos < sched.length) left = sched[pos][1];
      }
      if (pos < sched.length) return sched[pos][0];
      for (int i = 0; i < n; i++) if (!done[i] && !stuck[i]) return i; // schedule used up: one after the other
      return -1;
    }

    boolean open = false; // the schedule cannot be followed: run freely
    long steps = 0;

    static boolean blocked(Thread t) {
      Thread.State x = t.getState();
      return x == Thread.State.BLOCKED || x == Thread.State.WAITING || x == Thread.State.TIMED_WAITING;
    }

    synchronized void await(int me) {
      stuck[me] = false;
      waiting[me] = true;
      int idle = 0;
      while (!open && current() != me) {
        try {
          long before = steps;
          wait(3);
          if (steps != before) {
            idle = 0;
            continue;
          }
          int c = current();
          if (c >= 0 && !waiting[c] && !done[c] && blocked(threads[c])) { // it waits for a thread that waits for it
            stuck[c] = true;
            notifyAll();
          } else if (++idle > 150) open = true;
        } catch (InterruptedException e) {
          throw new IllegalStateException(e);
        }
      }
      waiting[me] = false;
      steps++;
      if (pos < sched.length) left--;
      notifyAll();
    }

    synchronized void finish(int me) {
      done[me] = true;
      notifyAll();
    }
  }

  static final ThreadLocal<Object[]> ME = new ThreadLocal<>();

  /** Nesting of class initializers, where no other thread can be let in. */
  static final ThreadLocal<int[]> INIT = ThreadLocal.withInitial(() -> new int[1]);

  public static void enter() {
    INIT.get()[0]++;
  }

  public static void exit() {
    INIT.get()[0]--;
  }

  public static void point() {
    Object[] m = ME.get();
    if (m != null && INIT.get()[0] == 0) ((Token) m[0]).await((Integer) m[1]);
  }

  static void run(Exec.Session s, JsonObject op, StringBuilder sb) throws Exception {
    JsonArray ts = op.getAsJsonArray("threads");
    int n = ts.size();
    boolean free = op.get("mode").getAsString().equals("free");
    JsonArray sc = op.getAsJsonArray("sched");
    int[][] sched = new int[sc.size()][];
    for (int i = 0; i < sched.length; i++)
      sched[i] = new int[] {sc.get(i).getAsJsonArray().get(0).getAsInt(), sc.get(i).getAsJsonArray().get(1).getAsInt()};
    Token token = new Token(n, sched);
    CyclicBarrier start = new CyclicBarrier(n);
    StringBuilder[] out = new StringBuilder[n];
    Throwable[] fail = new Throwable[n];
    Thread[] th = new Thread[n];
    for (int i = 0; i < n; i++) {
      final int me = i;
      out[i] = new StringBuilder();
      th[i] = new Thread(() -> {
        try {
          start.await();
          for (JsonElement e : ts.get(me).getAsJsonArray()) {
            if (!free) ME.set(new Object[] {token, me});
            Exec.Session x = s;
            x.stepIn(e.getAsJsonObject(), out[me]);
          }
        } catch (Throwable t) {
          fail[me] = t;
        } finally {
          ME.remove();
          token.finish(me);
        }
      });
      th[i].setDaemon(true);
      token.threads[i] = th[i];
    }
    for (int i = 0; i < n; i++) {
      th[i].start();
    }
    for (Thread t : th) t.join(120000);
    for (int i = 0; i < n; i++) {
      if (fail[i] != null) throw new IllegalStateException("HARNESS: thread " + i, fail[i]);
      if (th[i].isAlive()) throw new IllegalStateException("HARNESS: thread " + i + " did not finish");
      sb.append(out[i]);
    }
  }

  /** A heap buffer whose every access is a scheduling point. */
  static class SchedBuf extends UnpooledHeapByteBuf {
    SchedBuf() {
      super(UnpooledByteBufAllocator.DEFAULT, 64, Integer.MAX_VALUE);
    }

    @Override protected byte _getByte(int i) { point(); return super._getByte(i); }
    @Override protected short _getShort(int i) { point(); return super._getShort(i); }
    @Override protected short _getShortLE(int i) { point(); return super._getShortLE(i); }
    @Override protected int _getInt(int i) { point(); return super._getInt(i); }
    @Override protected int _getIntLE(int i) { point(); return super._getIntLE(i); }
    @Override protected long _getLong(int i) { point(); return super._getLong(i); }
    @Override protected long _getLongLE(int i) { point(); return super._getLongLE(i); }
    @Override protected void _setByte(int i, int v) { point(); super._setByte(i, v); }
    @Override protected void _setShort(int i, int v) { point(); super._setShort(i, v); }
    @Override protected void _setShortLE(int i, int v) { point(); super._setShortLE(i, v); }
    @Override protected void _setInt(int i, int v) { point(); super._setInt(i, v); }
    @Override protected void _setIntLE(int i, int v) { point(); super._setIntLE(i, v); }
    @Override protected void _setLong(int i, long v) { point(); super._setLong(i, v); }
    @Override protected void _setLongLE(int i, long v) { point(); super._setLongLE(i, v); }
    @Override public byte getByte(int i) { point(); return super.getByte(i); }
    @Override public ByteBuf setBytes(int i, byte[] s, int si, int n) { point(); return super.setBytes(i, s, si, n); }
    @Override public ByteBuf setBytes(int i, ByteBuf s, int si, int n) { point(); return super.setBytes(i, s, si, n); }
    @Override public ByteBuf setBytes(int i, ByteBuffer s) { point(); return super.setBytes(i, s); }
    @Override public int setBytes(int i, InputStream in, int n) throws IOException { point(); return super.setBytes(i, in, n); }
    @Override public ByteBuf getBytes(int i, byte[] d, int di, int n) { point(); return super.getBytes(i, d, di, n); }
    @Override public ByteBuf getBytes(int i, ByteBuf d, int di, int n) { point(); return super.getBytes(i, d, di, n); }
    @Override public ByteBuf getBytes(int i, ByteBuffer d) { point(); return super.getBytes(i, d); }
    @Override public CharSequence getCharSequence(int i, int n, java.nio.charset.Charset c) { point(); return super.getCharSequence(i, n, c); }
    @Override public ByteBuf slice(int i, int n) { point(); return super.slice(i, n); }
    @Override public ByteBuf writeBytes(byte[] s, int si, int n) { point(); return super.writeBytes(s, si, n); }
  }
}
