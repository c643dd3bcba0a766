package simlib;

import io.nayuki.bitcoin.crypto.*;

/** Calls the library's public functions by name. */
public final class Adapter implements jsim.Lib {
	public Object hash(byte[] b) { return new Sha256Hash(b); }
	public Object hashHex(String s) { return new Sha256Hash(s); }
	public Object call(String op, Object... a) throws Throwable {
		switch (op) {
			case "sha256": return Sha256.getHash((byte[])a[0]);
			case "sha256d": return Sha256.getDoubleHash((byte[])a[0]);
			case "hmac256": return Sha256.getHmac((byte[])a[0], (byte[])a[1]);
			case "sha512": return Sha512.getHash((byte[])a[0]);
			case "hmac512": return Sha512.getHmac((byte[])a[0], (byte[])a[1]);
			case "ripemd160": return Ripemd160.getHash((byte[])a[0]);
			case "keccak256": return Keccak256.getHash((byte[])a[0]);
			case "b58enc": return Base58Check.bytesToBase58((byte[])a[0]);
			case "b58dec": return Base58Check.base58ToBytes((String)a[0]);
			case "segenc": return Bech32.segwitToBech32((String)a[0], (Integer)a[1], (byte[])a[2]);
			case "segdec": return Bech32.bech32ToSegwit((String)a[0]);
			case "bgenc": return Bech32.bitGroupsToBech32((String)a[0], (byte[])a[1]);
			case "bgdec": return Bech32.bech32ToBitGroups((String)a[0]);
			case "hashNew": return new Sha256Hash((byte[])a[0]);
			case "hashParse": return new Sha256Hash((String)a[0]);
			case "hashText": return a[0].toString();
			case "hashBytes": return ((Sha256Hash)a[0]).toBytes();
			case "hashEquals": return a[0].equals(a[1]);
			case "hashCode": return a[0].hashCode();
			case "hashCompare": return ((Sha256Hash)a[0]).compareTo((Sha256Hash)a[1]);
			case "sign": return Ecdsa.sign((int[])a[0], (Sha256Hash)a[1], (int[])a[2], (int[])a[3], (int[])a[4]);
			case "signHmac": return Ecdsa.signWithHmacNonce((int[])a[0], (Sha256Hash)a[1], (int[])a[2], (int[])a[3]);
			case "verify": return Ecdsa.verify((int[])a[0], (Sha256Hash)a[1], (int[])a[2], (int[])a[3]);
			case "basePoint": return CurvePointMath.getBasePoint();
			case "hexToUint": Int256Math.hexToUint((String)a[0], (int[])a[1], (Integer)a[2]); return null;
			case "uintToHex": return Int256Math.uintToHex((int[])a[0], (Integer)a[1]);
			case "uintToBytes": return Int256Math.uintToBytes((int[])a[0], (Integer)a[1]);
			case "bytesToUint": Int256Math.bytesToUint((byte[])a[0], (int[])a[1], (Integer)a[2]); return null;
		}
		int[] v = (int[])a[0]; int[] o = (int[])a[1]; int e = a.length > 2 ? (Integer)a[2] : 0;
		switch (op) {
			case "uintAdd": return Int256Math.uintAdd(v, o[0], o[1], e, o[2]);
			case "uintSubtract": return Int256Math.uintSubtract(v, o[0], o[1], e, o[2]);
			case "uintShiftLeft1": return Int256Math.uintShiftLeft1(v, o[0], o[1]);
			case "uintShiftRight1": Int256Math.uintShiftRight1(v, o[0], e, o[1]); return null;
			case "reciprocal": Int256Math.reciprocal(v, o[0], o[1], o[2], o[3]); return null;
			case "fieldAdd": Int256Math.fieldAdd(v, o[0], o[1], o[2], o[3]); return null;
			case "fieldSubtract": Int256Math.fieldSubtract(v, o[0], o[1], o[2], o[3]); return null;
			case "fieldMultiply2": Int256Math.fieldMultiply2(v, o[0], o[1], o[2]); return null;
			case "fieldSquare": Int256Math.fieldSquare(v, o[0], o[1], o[2]); return null;
			case "fieldMultiply": Int256Math.fieldMultiply(v, o[0], o[1], o[2], o[3]); return null;
			case "copy": Int256Math.copy(v, o[0], v, o[1]); return null;
			case "replace": Int256Math.replace(v, o[0], o[1], e); return null;
			case "swap": Int256Math.swap(v, o[0], o[1], e); return null;
			case "equalTo": return Int256Math.equalTo(v, o[0], o[1]);
			case "lessThan": return Int256Math.lessThan(v, o[0], o[1]);
			case "twice": CurvePointMath.twice(v, o[0], o[1]); return null;
			case "add": CurvePointMath.add(v, o[0], o[1], o[2]); return null;
			case "multiply": CurvePointMath.multiply(v, o[0], o[1], o[2]); return null;
			case "normalize": CurvePointMath.normalize(v, o[0], o[1]); return null;
			case "pointReplace": CurvePointMath.replace(v, o[0], o[1], e); return null;
			case "isOnCurve": return CurvePointMath.isOnCurve(v, o[0], o[1]);
			case "pointIsZero": return CurvePointMath.isZero(v, o[0]);
		}
		throw new IllegalStateException(op);
	}
}
