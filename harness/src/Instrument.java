import java.io.IOException;
import java.io.UncheckedIOException;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.HashMap;
import java.util.Map;
import java.util.stream.Stream;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/**
 * Copies classes, with a scheduling point before every access to memory that threads may share: static
 * fields, fields of objects other than messages, elements of arrays, and calls to collections and other
 * library objects. While a class is initialized there are no points (the JVM holds a lock there).
 */
public class Instrument {
  static final Map<String, Boolean> message = new HashMap<>();

  public static void main(String[] a) throws Exception {
    Path in = Paths.get(a[0]), out = Paths.get(a[1]);
    try (Stream<Path> s = Files.walk(in)) {
      s.filter(p -> p.toString().endsWith(".class")).forEach(p -> {
        try {
          ClassReader r = new ClassReader(Files.readAllBytes(p));
          boolean m = false;
          for (String i : r.getInterfaces()) m |= i.equals("com/finproto/codec/BinaryCodec");
          message.put(r.getClassName(), m);
        } catch (IOException e) {
          throw new UncheckedIOException(e);
        }
      });
    }
    try (Stream<Path> s = Files.walk(in)) {
      s.filter(p -> p.toString().endsWith(".class")).forEach(p -> {
        try {
          Path q = out.resolve(in.relativize(p).toString());
          Files.createDirectories(q.getParent());
          ClassReader r = new ClassReader(Files.readAllBytes(p));
          ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
          r.accept(new ClassVisitor(Opcodes.ASM9, w) {
            @Override
            public MethodVisitor visitMethod(int access, String name, String desc, String sig, String[] ex) {
              MethodVisitor v = super.visitMethod(access, name, desc, sig, ex);
              return v == null ? null : new Points(v, name.equals("<clinit>"), name.equals("<init>"));
            }
          }, 0);
          Files.write(q, w.toByteArray());
        } catch (IOException e) {
          throw new UncheckedIOException(e);
        }
      });
    }
  }

  static class Points extends MethodVisitor {
    final boolean clinit, init;

    Points(MethodVisitor v, boolean clinit, boolean init) {
      super(Opcodes.ASM9, v);
      this.clinit = clinit;
      this.init = init;
    }

    void call(String name) {
      super.visitMethodInsn(Opcodes.INVOKESTATIC, "Par", name, "()V", false);
    }

    @Override
    public void visitCode() {
      super.visitCode();
      if (clinit) call("enter");
    }

    @Override
    public void visitFieldInsn(int op, String owner, String name, String desc) {
      boolean st = op == Opcodes.GETSTATIC || op == Opcodes.PUTSTATIC;
      if (!clinit && (st || !init && !message.getOrDefault(owner, false))) call("point");
      super.visitFieldInsn(op, owner, name, desc);
    }

    @Override
    public void visitInsn(int op) {
      if (clinit && op == Opcodes.RETURN) call("exit");
      if (!clinit && (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE
          || op == Opcodes.MONITORENTER)) call("point");
      super.visitInsn(op);
    }

    @Override
    public void visitMethodInsn(int op, String owner, String name, String desc, boolean itf) {
      boolean st = op == Opcodes.INVOKESTATIC;
      if (!clinit && op != Opcodes.INVOKESPECIAL && (st ? owner.equals("java/util/Arrays") || owner.equals("java/lang/System")
          : owner.startsWith("java/util/") || owner.startsWith("java/nio/") || owner.startsWith("java/text/") || owner.startsWith("io/netty/buffer/")
          || owner.equals("java/lang/StringBuilder") || owner.equals("java/lang/StringBuffer")))
        call("point");
      super.visitMethodInsn(op, owner, name, desc, itf);
    }
  }
}
