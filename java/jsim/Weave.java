package jsim;

import java.util.*;
import jdk.internal.org.objectweb.asm.*;
import static jdk.internal.org.objectweb.asm.Opcodes.*;

/** Instruments library classes while they are loaded, so that the simulator owns their scheduling, allocation and tracing. */
public final class Weave {
	public static final int YIELD = 1, ALLOC = 2, TRACE = 4, HMAC = 8;
	static final String HOOK = "jsim/Hook";

	/** Site numbers are given in loading order; names are kept for reports. */
	static int site(List<String> sites, String s) { sites.add(s); return sites.size() - 1; }

	public static byte[] apply(byte[] in, int mode, boolean isLib, List<String> sites) {
		ClassReader cr = new ClassReader(in); ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_MAXS);
		String[] cn = new String[1]; int[] acc = new int[1];
		cr.accept(new ClassVisitor(ASM8, cw) {
			public void visit(int v, int a, String name, String sig, String sup, String[] itf) { cn[0] = name; acc[0] = a; super.visit(v, a, name, sig, sup, itf); }
			public MethodVisitor visitMethod(int a, String name, String desc, String sig, String[] ex) {
				boolean sync = (a & ACC_SYNCHRONIZED) != 0 && (mode & YIELD) != 0;
				MethodVisitor mv = super.visitMethod(sync ? a & ~ACC_SYNCHRONIZED : a, name, desc, sig, ex);
				if (mv == null || (a & (ACC_ABSTRACT | ACC_NATIVE)) != 0) return mv;
				return new M(mv, mode, isLib, sites, cn[0], a, name, desc, sync);
			}
		}, ClassReader.SKIP_FRAMES | ClassReader.SKIP_DEBUG * 0);
		return cw.toByteArray();
	}

	static final class M extends MethodVisitor {
		final int mode, access; final boolean lib, sync, clinit; final List<String> sites; final String cls, name, desc; int line; final Label start = new Label(), end = new Label();
		M(MethodVisitor mv, int mode, boolean lib, List<String> sites, String cls, int access, String name, String desc, boolean sync) {
			super(ASM8, mv); this.mode = mode; this.lib = lib; this.sites = sites; this.cls = cls; this.access = access; this.name = name; this.desc = desc; this.sync = sync; clinit = name.equals("<clinit>");
		}
		boolean y() { return (mode & YIELD) != 0; }
		boolean t() { return (mode & TRACE) != 0 && lib; }
		boolean al() { return (mode & ALLOC) != 0 && lib && !clinit; }
		void hook(String m, String d) { mv.visitMethodInsn(INVOKESTATIC, HOOK, m, d, false); }
		void push(int v) { if (v >= -1 && v <= 5) mv.visitInsn(ICONST_0 + v); else if (v >= -32768 && v < 32768) mv.visitIntInsn(SIPUSH, v); else mv.visitLdcInsn(v); }
		int site(String what) { return Weave.site(sites, cls.substring(cls.lastIndexOf('/') + 1) + "." + name + ":" + line + " " + what); }
		boolean ours(String c) { return c.startsWith("io/nayuki/") || c.startsWith("simlib/"); }
		void lockObj() { if ((access & ACC_STATIC) != 0) mv.visitLdcInsn(Type.getObjectType(cls)); else mv.visitVarInsn(ALOAD, 0); }
		public void visitLineNumber(int l, Label s) { line = l; super.visitLineNumber(l, s); }
		public void visitCode() {
			super.visitCode();
			if (y() && clinit) mv.visitLabel(start);
			if (sync) { lockObj(); hook("monEnter", "(Ljava/lang/Object;)V"); mv.visitLabel(start); }
			if ((mode & HMAC) != 0 && cls.equals("io/nayuki/bitcoin/crypto/Sha256") && name.equals("getHmac") && desc.equals("([B[B)Lio/nayuki/bitcoin/crypto/Sha256Hash;")) {
				Label go = new Label(); hook("hmacOverride", "()[B"); mv.visitInsn(DUP); mv.visitJumpInsn(IFNULL, go);
				mv.visitVarInsn(ASTORE, 0); mv.visitTypeInsn(NEW, "io/nayuki/bitcoin/crypto/Sha256Hash"); mv.visitInsn(DUP); mv.visitVarInsn(ALOAD, 0);
				mv.visitMethodInsn(INVOKESPECIAL, "io/nayuki/bitcoin/crypto/Sha256Hash", "<init>", "([B)V", false); mv.visitInsn(ARETURN);
				mv.visitLabel(go); mv.visitInsn(POP);
			}
			if (al()) hook("frame", "()V");
			if (t()) { push(site("enter")); hook("enter", "(I)V"); }
		}
		void initClass(String c) { if (y() && ours(c) && !c.equals(cls)) { mv.visitLdcInsn(c); hook("init", "(Ljava/lang/String;)V"); } }
		public void visitFieldInsn(int op, String owner, String f, String d) {
			boolean st = op == GETSTATIC || op == PUTSTATIC;
			if (st) initClass(owner);
			boolean assertFlag = f.equals("$assertionsDisabled");
			if (y() && lib && !assertFlag) {
				if (op == PUTSTATIC && !clinit) hook("hot", "()V");
				else if (st && !clinit && !d.startsWith("[") && !d.equals("Ljava/lang/String;") && !d.equals("Ljava/math/BigInteger;")) hook("hot", "()V");
				else if (op != PUTFIELD || !name.equals("<init>")) hook("y", "()V");
			}
			super.visitFieldInsn(op, owner, f, d);
			if (y() && lib && op == GETSTATIC && d.startsWith("[")) { mv.visitInsn(DUP); hook("mark", "(Ljava/lang/Object;)V"); }
		}
		public void visitInsn(int op) {
			if (op >= IRETURN && op <= RETURN) {
				if (sync) { lockObj(); hook("monExit", "(Ljava/lang/Object;)V"); }
				if (y() && clinit) { mv.visitLdcInsn(cls); hook("initDone", "(Ljava/lang/String;)V"); }
				super.visitInsn(op); return;
			}
			if (op == MONITORENTER && y()) { mv.visitInsn(DUP); hook("monEnter", "(Ljava/lang/Object;)V"); super.visitInsn(op); return; }
			if (op == MONITOREXIT && y()) { mv.visitInsn(DUP); super.visitInsn(op); hook("monExit", "(Ljava/lang/Object;)V"); return; }
			if (lib && op >= IALOAD && op <= SALOAD) {
				if (y()) hook("y", "()V");
				if (t()) { mv.visitInsn(DUP); push(site("read")); hook("index", "(II)V"); }
			} else if (lib && op >= IASTORE && op <= SASTORE) {
				boolean wide = op == LASTORE || op == DASTORE;
				if (y() || t()) {
					if (wide) { mv.visitInsn(DUP2_X2); mv.visitInsn(POP2); } else { mv.visitInsn(DUP_X2); mv.visitInsn(POP); }
					mv.visitInsn(DUP2);  // v a i a i
					if (t()) { push(site("write")); hook("store", "(Ljava/lang/Object;II)V"); } else { mv.visitInsn(POP); hook("st", "(Ljava/lang/Object;)V"); }
					if (wide) { mv.visitInsn(DUP2_X2); mv.visitInsn(POP2); } else { mv.visitInsn(DUP2_X1); mv.visitInsn(POP2); }
				}
			} else if (t() && op == IDIV || t() && op == IREM) { /* division is not used on secrets by name: the operands are traced */
				mv.visitInsn(DUP2); push(site("divide")); hook("divide", "(III)V");
			} else if (t() && (op == LDIV || op == LREM)) {  // x y : the divisor first, then both again
				mv.visitInsn(DUP2); push(site("divisor")); hook("long1", "(JI)V");
			}
			super.visitInsn(op);
		}
		public void visitIntInsn(int op, int v) {
			if (op == NEWARRAY) { if (al()) hook("alloc", "()V"); if (t()) { mv.visitInsn(DUP); push(site("new array")); hook("index", "(II)V"); } }
			super.visitIntInsn(op, v);
		}
		public void visitTypeInsn(int op, String c) {
			if (op == NEW) initClass(c);
			if (op == NEW && al()) hook("alloc", "()V");
			if (op == NEW && t()) { push(site("new " + c)); hook("enter", "(I)V"); }
			if (op == ANEWARRAY) { if (al()) hook("alloc", "()V"); if (t()) { mv.visitInsn(DUP); push(site("new array")); hook("index", "(II)V"); } }
			super.visitTypeInsn(op, c);
		}
		public void visitMultiANewArrayInsn(String d, int n) { if (al()) hook("alloc", "()V"); super.visitMultiANewArrayInsn(d, n); }
		static boolean allocating(String owner, String m) {
			if (owner.startsWith("[")) return m.equals("clone");
			if (owner.equals("java/util/Arrays")) return m.startsWith("copyOf") || m.equals("asList");
			if (owner.equals("java/util/Objects") || owner.equals("java/lang/System") || owner.equals("java/lang/Math") || owner.equals("java/lang/Class") || owner.equals("java/lang/Object")) return false;
			if (owner.equals("java/lang/Integer") || owner.equals("java/lang/Long") || owner.equals("java/lang/Byte") || owner.equals("java/lang/Boolean")) return m.equals("valueOf") || m.startsWith("to");
			if (owner.equals("java/lang/String")) return !(m.equals("length") || m.equals("charAt") || m.equals("indexOf") || m.equals("lastIndexOf") || m.equals("equals"));
			return true;
		}
		public void visitMethodInsn(int op, String owner, String m, String d, boolean itf) {
			if (op == INVOKESTATIC) initClass(owner);
			boolean own = ours(owner) && !owner.startsWith("[");
			if (lib && !own) {
				if (y() && !m.equals("<init>") && !m.equals("desiredAssertionStatus")) hook("y", "()V");
				if (al() && allocating(owner, m)) hook("alloc", "()V");
				if (t()) {
					if (op == INVOKESTATIC && owner.equals("java/lang/System") && m.equals("arraycopy")) { /* src so dst do n */ mv.visitInsn(DUP); push(site("arraycopy")); hook("index", "(II)V"); mv.visitInsn(DUP2); mv.visitInsn(POP); push(site("arraycopy to")); hook("index", "(II)V"); copyFrom(); }
					else if (op == INVOKESTATIC && owner.equals("java/util/Arrays") && d.contains("II") && (m.equals("fill") || m.equals("copyOfRange"))) { push(site(m)); hook("enter", "(I)V"); if (m.equals("copyOfRange")) { mv.visitInsn(DUP2); push(site(m)); hook("divide", "(III)V"); } }
					else { push(site("call " + owner + "." + m)); hook("enter", "(I)V"); }
				}
			}
			boolean eq = t() && owner.equals("java/util/Arrays") && (m.equals("equals") || m.equals("compare") || m.equals("mismatch")) && Type.getArgumentTypes(d).length == 2;
			if (eq) { mv.visitInsn(DUP2); push(site("call Arrays." + m)); hook("arrays", "(Ljava/lang/Object;Ljava/lang/Object;I)V"); }
			if (y() && (owner.equals("java/util/concurrent/locks/ReentrantLock") || owner.equals("java/util/concurrent/locks/Lock")) && (m.equals("lock") || m.equals("unlock") || m.equals("tryLock") && d.equals("()Z"))) { hook(m, "(Ljava/util/concurrent/locks/Lock;)" + d.substring(2)); return; }
			super.visitMethodInsn(op, owner, m, d, itf);
			if (t() && d.endsWith(")Ljava/math/BigInteger;")) { mv.visitInsn(DUP); push(site("big integer")); hook("big", "(Ljava/math/BigInteger;I)V"); }
		}
		// src so dst do n: the source offset is below the top three, so a helper gets all five and gives them back through fields
		void copyFrom() { push(site("arraycopy from")); hook("arraycopy", "(Ljava/lang/Object;ILjava/lang/Object;III)V"); hook("acSrc", "()Ljava/lang/Object;"); hook("acSo", "()I"); hook("acDst", "()Ljava/lang/Object;"); hook("acDo", "()I"); hook("acN", "()I"); }
		public void visitJumpInsn(int op, Label l) {
			if (t() && op != GOTO && op != JSR) {
				// The outcome of the branch: one event on the fall-through side, so that the sequence of events differs exactly when the outcome does
				push(site("branch")); hook("branch", "(I)V"); super.visitJumpInsn(op, l); push(site("not taken")); hook("enter", "(I)V"); return;
			}
			super.visitJumpInsn(op, l);
		}
		public void visitTableSwitchInsn(int min, int max, Label dflt, Label... ls) { if (t()) { mv.visitInsn(DUP); push(site("switch")); hook("index", "(II)V"); } super.visitTableSwitchInsn(min, max, dflt, ls); }
		public void visitLookupSwitchInsn(Label dflt, int[] keys, Label[] ls) { if (t()) { mv.visitInsn(DUP); push(site("switch")); hook("index", "(II)V"); } super.visitLookupSwitchInsn(dflt, keys, ls); }
		public void visitMaxs(int a, int b) {
			if (sync || y() && clinit) {
				mv.visitLabel(end); Label h = new Label(); mv.visitTryCatchBlock(start, end, h, null); mv.visitLabel(h);
				if (sync) { lockObj(); hook("monExit", "(Ljava/lang/Object;)V"); } else { mv.visitLdcInsn(cls); hook("initDone", "(Ljava/lang/String;)V"); }
				mv.visitInsn(ATHROW);
			}
			super.visitMaxs(a, b);
		}
	}
}
