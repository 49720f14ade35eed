// Decoder: turns one instruction word into an op. Anything not recognised becomes i_unimpl.
F(i_unimpl) { die(125, "unimplemented instruction", c, (u32)o->imm); }

#define BIT(n) (w >> (n) & 1)
#define BITS(hi, lo) (w >> (lo) & ((1u << ((hi) - (lo) + 1)) - 1))
static i64 sext(u64 v, int n) { return (i64)(v << (64 - n)) >> (64 - n); }
static u8 D(int r) { return r == 31 ? TR : r; } // destination
static u8 P(int r) { return r == 31 ? SP : r; } // register or stack pointer

static int bitmask(int n, int immr, int imms, u64 *out) {
	if (!(n << 6 | (~imms & 63)))
		return 0;
	int len = 31 - __builtin_clz(n << 6 | (~imms & 63));
	if (len < 1)
		return 0;
	int size = 1 << len, s = imms & (size - 1), r = immr & (size - 1);
	u64 e = mask(s + 1);
	if (r)
		e = (e >> r | e << (size - r)) & mask(size);
	for (int i = size; i < 64; i *= 2)
		e |= e << i;
	*out = e;
	return 1;
}

static u64 fpimm(int imm8, int dbl) {
	u64 s = imm8 >> 7 & 1, b = imm8 >> 6 & 1, f = imm8 & 63;
	if (dbl)
		return s << 63 | (b ? 0x3fc0ull : 0x4000ull) << 48 | f << 48;
	return s << 31 | (b ? 0x3e00ull : 0x4000ull) << 16 | f << 19;
}

static void decode(u64 pc, u32 w, op *o) {
	int rd = BITS(4, 0), rn = BITS(9, 5), rm = BITS(20, 16), sf = BIT(31);
	memset(o, 0, sizeof *o);
	o->f = i_unimpl;
	o->imm = w;
#define OK(fn_) do { o->f = (fn_); return; } while (0)
#define REGS(a, b, d) (o->rd = (a), o->rn = (b), o->rm = (d))
	// data processing, immediate
	if (BITS(28, 26) == 4) {
		switch (BITS(25, 23)) {
		case 0: case 1: {
			i64 imm = sext((u64)BITS(23, 5) << 2 | BITS(30, 29), 21);
			o->rd = D(rd);
			o->imm = sf ? (pc & ~0xfffull) + (imm << 12) : pc + imm;
			OK(i_adr);
		}
		case 2: {
			u64 imm = (u64)BITS(21, 10) << (BIT(22) ? 12 : 0);
			int sub = BIT(30), s = BIT(29);
			o->rn = P(rn);
			o->rd = s ? D(rd) : P(rd);
			o->imm = imm;
			if (s)
				OK(sub ? (sf ? i_subsi : i_subsiw) : (sf ? i_addsi : i_addsiw));
			if (sub)
				o->imm = -imm;
			OK(sf ? i_addi : i_addiw);
		}
		case 4: {
			u64 m;
			int opc = BITS(30, 29);
			if (!bitmask(BIT(22), BITS(21, 16), BITS(15, 10), &m) || (!sf && BIT(22)))
				return;
			if (!sf)
				m &= 0xffffffffu;
			o->rn = rn;
			o->rd = opc == 3 ? D(rd) : P(rd);
			o->imm = m;
			switch (opc) {
			case 0: OK(sf ? i_andi : i_andiw);
			case 1: OK(sf ? i_orri : i_orriw);
			case 2: OK(sf ? i_eori : i_eoriw);
			default: OK(sf ? i_andsi : i_andsiw);
			}
		}
		case 5: {
			u64 v = BITS(20, 5);
			int sh = BITS(22, 21) * 16;
			o->rd = D(rd);
			o->sh = sh;
			switch (BITS(30, 29)) {
			case 0: o->imm = ~(v << sh); if (!sf) o->imm = (u32)o->imm; OK(i_movi);
			case 2: o->imm = v << sh; OK(i_movi);
			case 3: o->imm = v; OK(sf ? i_movk : i_movkw);
			}
			return;
		}
		case 6: {
			int opc = BITS(30, 29), immr = BITS(21, 16), imms = BITS(15, 10);
			if (opc == 3)
				return;
			o->rn = rn;
			o->rd = D(rd);
			if (opc == 2 && sf && imms != 63 && imms + 1 == immr) {
				o->imm = 63 - imms;
				OK(i_lsli);
			}
			if (opc == 2 && sf && imms == 63) {
				o->imm = immr;
				OK(i_lsri);
			}
			if (opc == 2 && sf && imms >= immr) {
				o->sh = immr;
				o->imm = mask(imms - immr + 1);
				OK(i_ubfx);
			}
			o->rm = immr; o->ra = imms; o->k = opc; o->sh = sf ? 64 : 32;
			OK(i_bfm);
		}
		case 7:
			if (BITS(30, 29) || BIT(21))
				return;
			REGS(D(rd), rn, rm);
			o->imm = BITS(15, 10);
			OK(sf ? i_extr : i_extrw);
		}
		return;
	}
	// branches and system
	if (BITS(28, 26) == 5) {
		switch (BITS(30, 29)) {
		case 0:
			o->imm = pc + (sext(BITS(25, 0), 26) << 2);
			OK(sf ? i_bl : i_b);
		case 1:
			o->rd = rd;
			if (!BIT(25)) {
				o->imm = pc + (sext(BITS(23, 5), 19) << 2);
				OK(BIT(24) ? (sf ? i_cbnz : i_cbnzw) : (sf ? i_cbz : i_cbzw));
			}
			o->imm = pc + (sext(BITS(18, 5), 14) << 2);
			o->sh = BIT(31) << 5 | BITS(23, 19);
			OK(BIT(24) ? i_tbnz : i_tbz);
		case 2:
			if (!sf && !BIT(24) && !BIT(4)) {
				o->imm = pc + (sext(BITS(23, 5), 19) << 2);
				o->k = rd & 15;
				OK(i_bcond);
			}
			if (w == 0xd4000001)
				OK(i_svc);
			if ((w & 0xffe0001f) == 0xd4200000)
				OK(i_brk);
			if ((w & 0xfffff01f) == 0xd503201f || (w & 0xfffff0ff) == 0xd50330bf || (w & 0xfffff0ff) == 0xd503309f || (w & 0xfffff0ff) == 0xd50330df)
				OK(i_nop); // hints, DMB, DSB, ISB
			if ((w & 0xfffff0ff) == 0xd503305f)
				OK(i_clrex);
			if ((w & 0xfff00000) == 0xd5300000) {
				o->rd = D(rd); o->imm = w >> 5 & 0xffff;
				OK(i_mrs);
			}
			if ((w & 0xfff00000) == 0xd5100000) {
				o->rd = rd; o->imm = w >> 5 & 0xffff; // as for MRS, without the direction bit
				OK(i_msr);
			}
			o->rn = rn;
			if ((w & 0xfffffc1f) == 0xd61f0000 || (w & 0xfffffc1f) == 0xd65f0000)
				OK(i_br);
			if ((w & 0xfffffc1f) == 0xd63f0000)
				OK(i_blr);
			o->imm = w;
			return;
		}
		return;
	}
	// loads and stores
	if (BIT(27) && !BIT(25)) {
		int size = BITS(31, 30), V = BIT(26);
		if ((w & 0x3b000000) == 0x18000000) {
			o->imm = pc + (sext(BITS(23, 5), 19) << 2);
			if (V) {
				if (size == 3) { o->imm = w; return; }
				o->rd = rd; o->k = 4 << size;
				OK(i_vldrlit);
			}
			o->rd = D(rd);
			switch (size) {
			case 0: OK(i_ldrlit32);
			case 1: OK(i_ldrlit64);
			case 2: OK(i_ldrlitsw);
			}
			OK(i_nop);
		}
		if ((w & 0x3a000000) == 0x28000000) { // pairs
			int L = BIT(22), mode = BITS(24, 23), rt2 = BITS(14, 10);
			i64 imm = sext(BITS(21, 15), 7);
			o->k = mode == 1 ? POST : mode == 3 ? PRE : OFF;
			o->rn = P(rn);
			if (V) {
				o->rd = rd; o->ra = rt2;
				o->imm = imm * (4 << size);
				switch (size) {
				case 0: OK(L ? i_vldp4 : i_vstp4);
				case 1: OK(L ? i_vldp8 : i_vstp8);
				case 2: OK(L ? i_vldp16 : i_vstp16);
				}
				o->imm = w;
				return;
			}
			o->rd = L ? D(rd) : rd; o->ra = L ? D(rt2) : rt2;
			o->imm = imm * (size == 2 ? 8 : 4);
			switch (size) {
			case 0: OK(L ? i_ldp32 : i_stp32);
			case 1: if (L) OK(i_ldpsw); break;
			case 2: OK(L ? i_ldp64 : i_stp64);
			}
			o->imm = w;
			return;
		}
		if ((w & 0x3f000000) == 0x08000000) { // exclusive and ordered
			int o2 = BIT(23), L = BIT(22), o1 = BIT(21);
			o->rn = P(rn); o->k = size;
			if (!o2 && !o1) {
				o->rd = L ? D(rd) : rd; o->rm = D(rm);
				OK(L ? i_ldx : i_stx);
			}
			if (o2 && !o1) {
				o->rd = L ? D(rd) : rd;
				OK(L ? i_ldar : i_stlr);
			}
			if (o2 && o1 && BITS(14, 10) == 31) {
				o->rd = rd; o->rm = rm;
				OK(i_cas);
			}
			return;
		}
		static const fn st[4] = {i_str8, i_str16, i_str32, i_str64}, ld[4] = {i_ldr8, i_ldr16, i_ldr32, i_ldr64},
			lsx[4] = {i_ldrs8, i_ldrs16, i_ldrs32, 0}, lsw[4] = {i_ldrs8w, i_ldrs16w, 0, 0},
			vl[5] = {i_vldr1, i_vldr2, i_vldr4, i_vldr8, i_vldr16}, vs[5] = {i_vstr1, i_vstr2, i_vstr4, i_vstr8, i_vstr16};
		if ((w & 0x3a000000) == 0x38000000) {
			int opc = BITS(23, 22), scale = size;
			fn f = 0;
			if (V) {
				scale |= (opc & 2) << 1;
				if (scale <= 4)
					f = opc & 1 ? vl[scale] : vs[scale];
			} else
				f = opc == 0 ? st[size] : opc == 1 ? ld[size] : opc == 2 ? (size == 3 ? i_nop : lsx[size]) : lsw[size];
			if (BIT(24)) {
				o->k = OFF;
				o->imm = (u64)BITS(21, 10) << scale;
				if (f == i_ldr64) f = i_ldr64o;
				if (f == i_str64) f = i_str64o;
			} else if (!BIT(21)) {
				o->imm = sext(BITS(20, 12), 9);
				switch (BITS(11, 10)) {
				case 0: o->k = OFF; break;
				case 1: o->k = POST; break;
				case 3: o->k = PRE; break;
				default: f = 0;
				}
			} else if (BITS(11, 10) == 2) {
				o->k = REG;
				o->rm = rm;
				o->ra = BITS(15, 13);
				o->sh = BIT(12) ? scale : 0;
			} else if (BITS(11, 10) == 0 && !V) { // LSE
				int opc2 = BITS(14, 12), o3 = BIT(15);
				o->rn = P(rn); o->rm = rm; o->rd = D(rd); o->k = size;
				if (o3 ? opc2 == 0 : opc2 < 4) {
					o->sh = o3 ? 8 : opc2;
					OK(i_lse);
				}
				f = 0;
			}
			if (f) {
				o->rn = P(rn);
				o->rd = V || opc == 0 ? rd : D(rd);
				OK(f);
			}
			o->imm = w;
			return;
		}
		if ((w & 0xbfbf0000) == 0x0c000000 || (w & 0xbfa00000) == 0x0c800000) { // multiple structures
			int Q = BIT(30), L = BIT(22), post = BIT(23), n;
			switch (BITS(15, 12)) {
			case 7: n = 1; break;
			case 10: n = 2; break;
			case 6: n = 3; break;
			case 2: n = 4; break;
			default: return;
			}
			o->rd = rd; o->rn = P(rn); o->rm = post ? rm : ZR;
			o->k = n; o->sh = Q ? 16 : 8;
			o->imm = post && rm == 31 ? n * o->sh : 0;
			OK(L ? i_ld1 : i_st1);
		}
		if ((w & 0xbf9f0000) == 0x0d000000 || (w & 0xbf800000) == 0x0d800000) { // single structures
			int Q = BIT(30), L = BIT(22), R = BIT(21), post = BIT(23), opc = BITS(15, 13), S = BIT(12), sz = BITS(11, 10);
			o->rd = rd; o->rn = P(rn); o->rm = post ? rm : ZR;
			if (opc >= 6) {
				if (!L)
					return;
				o->k = ((opc & 1) << 1 | R) + 1;
				o->ra = sz; o->sh = Q ? 16 : 8;
				o->imm = post && rm == 31 ? o->k << sz : 0;
				OK(i_ldr_rep);
			}
			if (R || (opc & 1))
				return;
			switch (opc >> 1) {
			case 0: o->ra = 0; o->sh = Q << 3 | S << 2 | sz; break;
			case 1: o->ra = 1; o->sh = Q << 2 | S << 1 | sz >> 1; break;
			default:
				if (sz == 0) { o->ra = 2; o->sh = Q << 1 | S; }
				else { o->ra = 3; o->sh = Q; }
			}
			o->k = L;
			o->imm = post && rm == 31 ? 1 << o->ra : 0;
			OK(i_ld1e);
		}
		return;
	}
	// data processing, registers
	if (BITS(27, 25) == 5) {
		REGS(D(rd), rn, rm);
		if ((w & 0x1f000000) == 0x0a000000) {
			int N = BIT(21);
			o->k = BITS(23, 22); o->sh = BITS(15, 10);
			if (!sf && o->sh > 31) { o->imm = w; return; }
			switch (BITS(30, 29)) {
			case 0: OK(N ? (sf ? i_bic : i_bicw) : (sf ? i_and : i_andw));
			case 1:
				if (sf && !N && rn == 31 && o->sh == 0)
					OK(i_mov);
				OK(N ? (sf ? i_orn : i_ornw) : (sf ? i_orr : i_orrw));
			case 2: OK(N ? (sf ? i_eon : i_eonw) : (sf ? i_eor : i_eorw));
			default: OK(N ? (sf ? i_bics : i_bicsw) : (sf ? i_ands : i_andsw));
			}
		}
		if ((w & 0x1f000000) == 0x0b000000) {
			int sub = BIT(30), s = BIT(29);
			if (BIT(21)) {
				if (BITS(23, 22))
					return;
				o->rn = P(rn);
				o->rd = s ? D(rd) : P(rd);
				o->k = BITS(15, 13); o->sh = BITS(12, 10);
				if (sf)
					OK(sub ? (s ? i_subsx : i_subx) : (s ? i_addsx : i_addx));
				OK(sub ? (s ? i_subsxw : i_subxw) : (s ? i_addsxw : i_addxw));
			}
			o->k = BITS(23, 22); o->sh = BITS(15, 10);
			if (o->k == 3 || (!sf && o->sh > 31))
				return;
			if (sf && !sub && !s && o->sh == 0)
				OK(i_add0);
			if (sf)
				OK(sub ? (s ? i_subs : i_sub) : (s ? i_adds : i_add));
			OK(sub ? (s ? i_subsw : i_subw) : (s ? i_addsw : i_addw));
		}
		if ((w & 0x1fe0fc00) == 0x1a000000) {
			int sub = BIT(30), s = BIT(29);
			if (sf)
				OK(sub ? (s ? i_sbcs : i_sbc) : (s ? i_adcs : i_adc));
			OK(sub ? (s ? i_sbcsw : i_sbcw) : (s ? i_adcsw : i_adcw));
		}
		if ((w & 0x3fe00410) == 0x3a400000) {
			o->k = BITS(15, 12); o->sh = w & 15;
			o->ra = (BIT(30) ? 0 : 1) | (BIT(11) ? 2 : 0) | (sf ? 4 : 0);
			o->imm = rm;
			OK(i_ccmp);
		}
		if ((w & 0x3fe00800) == 0x1a800000) {
			static const fn f[8] = {i_cselw, i_csincw, i_csinvw, i_csnegw, i_csel, i_csinc, i_csinv, i_csneg};
			o->k = BITS(15, 12);
			OK(f[sf << 2 | BIT(30) << 1 | BIT(10)]);
		}
		if ((w & 0x7fe00000) == 0x1ac00000) {
			switch (BITS(15, 10)) {
			case 2: OK(sf ? i_udiv : i_udivw);
			case 3: OK(sf ? i_sdiv : i_sdivw);
			case 8: OK(sf ? i_lslv : i_lslvw);
			case 9: OK(sf ? i_lsrv : i_lsrvw);
			case 10: OK(sf ? i_asrv : i_asrvw);
			case 11: OK(sf ? i_rorv : i_rorvw);
			}
			if (BITS(15, 13) == 2) {
				o->k = BIT(12); o->sh = BITS(11, 10);
				OK(i_crc);
			}
			return;
		}
		if ((w & 0x7fff0000) == 0x5ac00000) {
			switch (BITS(15, 10)) {
			case 0: OK(sf ? i_rbit : i_rbitw);
			case 1: OK(sf ? i_rev16 : i_rev16w);
			case 2: OK(sf ? i_rev32 : i_revw);
			case 3: if (sf) OK(i_rev); return;
			case 4: OK(sf ? i_clz : i_clzw);
			case 5: OK(sf ? i_cls : i_clsw);
			}
			return;
		}
		if ((w & 0x7f000000) == 0x1b000000) {
			int o0 = BIT(15);
			o->ra = BITS(14, 10);
			switch (BITS(23, 21)) {
			case 0:
				if (sf && !o0 && o->ra == 31)
					OK(i_mul);
				OK(o0 ? (sf ? i_msub : i_msubw) : (sf ? i_madd : i_maddw));
			case 1: if (sf) OK(o0 ? i_smsubl : i_smaddl); return;
			case 2: if (sf && !o0) OK(i_smulh); return;
			case 5: if (sf) OK(o0 ? i_umsubl : i_umaddl); return;
			case 6: if (sf && !o0) OK(i_umulh); return;
			}
		}
		return;
	}
	if (BITS(27, 25) != 7)
		return;
	REGS(rd, rn, rm);
	if ((w & 0xff3ffc00) == 0x4e284800) OK(v_aese);
	if ((w & 0xff3ffc00) == 0x4e285800) OK(v_aesd);
	if ((w & 0xff3ffc00) == 0x4e286800) OK(v_aesmc);
	if ((w & 0xff3ffc00) == 0x4e287800) OK(v_aesimc);
	// scalar floating point
	if ((w & 0x5f000000) == 0x1e000000) {
		int pt = BITS(23, 22), dbl = pt == 1;
		o->sh = dbl;
		if (!BIT(21) || BIT(29))
			return;
		if (BITS(15, 10) == 0) {
			int key = BITS(20, 16); // rmode, opcode
			if (pt == 2) {
				if (!sf) return;
				if (key == 0xe) { o->rd = D(rd); OK(i_fmov_xt); }
				if (key == 0xf) OK(i_fmov_tx);
				return;
			}
			if (pt == 3) return;
			switch (key) {
			case 6: o->rd = D(rd); if (sf == dbl) OK(sf ? i_fmov_xd : i_fmov_ws); return;
			case 7: if (sf == dbl) OK(sf ? i_fmov_dx : i_fmov_sw); return;
			case 2: case 3: o->k = (key & 1) | sf << 1; OK(i_cvtf);
			case 0: case 1: case 8: case 9: case 16: case 17: case 24: case 25:
				o->rd = D(rd); o->k = (key & 1) | sf << 1; o->ra = key >> 3; OK(i_fcvt);
			case 4: case 5: o->rd = D(rd); o->k = (key & 1) | sf << 1; o->ra = 4; OK(i_fcvt);
			}
			return;
		}
		if (sf || pt > 1)
			return;
		if (BITS(14, 10) == 16) {
			int opc = BITS(20, 15);
			if (opc < 4 || (opc >= 8 && opc != 13)) { if (opc > 15) return; o->k = opc; OK(i_fp1); }
			if (opc == 4 && dbl) { o->k = 4; OK(i_fp1); }
			if (opc == 5 && !dbl) { o->k = 5; OK(i_fp1); }
			return;
		}
		if (BITS(13, 10) == 8) {
			if (BITS(15, 14) || BITS(2, 0)) return;
			o->k = BIT(3);
			OK(i_fcmp);
		}
		if (BITS(12, 10) == 4) {
			if (BITS(9, 5)) return;
			o->imm = fpimm(BITS(20, 13), dbl);
			OK(i_fmovi);
		}
		switch (BITS(11, 10)) {
		case 1: o->k = BITS(15, 12); o->imm = w & 15; OK(i_fccmp);
		case 2: o->k = BITS(15, 12); if (o->k > 8) return; OK(i_fp2);
		case 3: o->k = BITS(15, 12); OK(i_fcsel);
		}
		return;
	}
	if ((w & 0xff000000) == 0x1f000000) {
		if (BITS(23, 22) > 1) return;
		o->sh = BIT(22); o->ra = BITS(14, 10);
		// FMADD 00, FMSUB 01, FNMADD 10, FNMSUB 11 (o1, o0)
		o->k = BIT(21) << 1 | BIT(15);
		OK(i_fmadd);
	}
	int Q = BIT(30), U = BIT(29), size = BITS(23, 22);
	o->sh = Q ? 16 : 8;
	o->ra = size;
	if ((w & 0x9f200400) == 0x0e200400) { // three same
		switch (BITS(15, 11)) {
		case 3: {
			static const fn f[8] = {v_and, v_bic, v_orr, v_orn, v_eor, v_bsl, v_bit, v_bif};
			o->ra = 3;
			OK(f[U << 2 | size]);
		}
		case 6: OK(U ? v_cmhi : v_cmgt);
		case 7: OK(U ? v_cmhs : v_cmge);
		case 12: OK(U ? v_umax : v_smax);
		case 13: OK(U ? v_umin : v_smin);
		case 16: OK(U ? v_sub : v_add);
		case 17: OK(U ? v_cmeq : v_cmtst);
		case 18: OK(U ? v_mls : v_mla);
		case 19: if (!U) OK(v_mul); return;
		case 20: if (U) OK(v_umaxp); return;
		case 21: if (U) OK(v_uminp); return;
		case 23: if (!U) OK(v_addp); return;
		}
		return;
	}
	if ((w & 0x9f3e0c00) == 0x0e200800) { // two registers
		switch (BITS(16, 12)) {
		case 0: o->k = U ? 4 : 8; OK(v_rev);
		case 1: if (U) return; o->k = 2; OK(v_rev);
		case 2: if (U) OK(v_uaddlp); return;
		case 5:
			o->ra = 0;
			if (!U && size == 0) OK(v_cnt);
			if (U && size == 0) OK(v_not);
			if (U && size == 1) OK(v_rbit);
			return;
		case 8: OK(U ? v_cmge0 : v_cmgt0);
		case 9: OK(U ? v_cmle0 : v_cmeq0);
		case 10: if (!U) OK(v_cmlt0); return;
		case 11: OK(U ? v_neg : v_abs);
		case 18: if (!U) { o->k = Q << 7; OK(v_shrn); } return; // XTN
		}
		return;
	}
	if ((w & 0x9f3e0c00) == 0x0e300800) { // across lanes
		switch (BITS(16, 12)) {
		case 3: if (U) { o->k = 1; OK(v_across); } return;
		case 10: if (U) { o->k = 2; OK(v_across); } return;
		case 26: if (U) { o->k = 3; OK(v_across); } return;
		case 27: if (!U) { o->k = 0; OK(v_across); } return;
		}
		return;
	}
	if ((w & 0x9fe08400) == 0x0e000400) { // copy
		int imm5 = rm, e, i;
		if (!(imm5 & 15)) return;
		e = __builtin_ctz(imm5);
		i = imm5 >> (e + 1);
		o->ra = e; o->k = i;
		if (U) {
			if (!Q) return;
			o->sh = BITS(14, 11) >> e;
			OK(v_inse);
		}
		switch (BITS(14, 11)) {
		case 0: OK(v_dupe);
		case 1: OK(v_dupg);
		case 3: if (Q) OK(v_insg); return;
		case 5: o->rd = D(rd); OK(Q ? v_smov : v_smovw);
		case 7: o->rd = D(rd); OK(v_umov);
		}
		return;
	}
	if ((w & 0xbfe08400) == 0x2e000000) { o->k = BITS(14, 11); OK(v_ext); }
	if ((w & 0xbfe08c00) == 0x0e000000) { o->k = BITS(14, 13) + 1; o->ra = BIT(12); OK(v_tbl); }
	if ((w & 0xbf208c00) == 0x0e000800) { o->k = BITS(14, 12); if (!(o->k & 3)) return; OK(v_perm); }
	if ((w & 0x9ff80400) == 0x0f000400) { // modified immediate
		u64 v = BITS(18, 16) << 5 | BITS(9, 5);
		int cm = BITS(15, 12), op_ = U;
		if (BIT(11)) return;
		if (cm < 8) { v <<= 8 * (cm >> 1); v |= v << 32; }
		else if (cm < 12) { v <<= 8 * (cm >> 1 & 1); v |= v << 16; v |= v << 32; }
		else if (cm < 14) { v = cm & 1 ? v << 16 | 0xffff : v << 8 | 0xff; v |= v << 32; }
		else if (cm == 14) {
			if (op_) { u64 r = 0; for (int i = 0; i < 8; i++) if (v >> i & 1) r |= 0xffull << 8 * i; v = r; }
			else v *= 0x0101010101010101ull;
		} else {
			v = fpimm((int)v, op_);
			if (!op_) v |= v << 32;
		}
		if (cm < 12 && (cm & 1)) { o->k = op_ ? 2 : 1; o->imm = op_ ? ~v : v; OK(v_movi); }
		o->imm = cm < 14 && op_ ? ~v : v;
		OK(v_movi);
	}
	if ((w & 0x9f800400) == 0x0f000400) { // shift by immediate
		int h = BITS(22, 16), e = 31 - __builtin_clz(h >> 3), r = (16 << e) - h, l = h - (8 << e);
		o->ra = e;
		switch (BITS(15, 11)) {
		case 0: o->k = r; OK(U ? v_ushr : v_sshr);
		case 2: if (U) { o->k = r; OK(v_usra); } return;
		case 8: if (U) { o->k = r; OK(v_sri); } return;
		case 10: o->k = l; OK(U ? v_sli : v_shl);
		case 16: if (!U) { o->k = r | Q << 7; OK(v_shrn); } return;
		case 20: o->k = l | Q << 7; o->imm = !U; OK(v_shll);
		}
		return;
	}
	if ((w & 0x9f200c00) == 0x0e200000) { // three different
		int k = BITS(15, 12);
		if (k == 14 && !U && (size == 0 || size == 3)) { o->k = Q; OK(v_pmull); }
		if (k == 0 || k == 1 || k == 2 || k == 8 || k == 10 || k == 12) { o->k = k; o->sh = Q; o->imm = U; OK(v_3diff); }
		return;
	}
	// scalar forms
	if ((w & 0xfffffc00) == 0x5ef1b800) OK(v_addp_s);
	if ((w & 0xffe0fc00) == 0x5e000400) { // DUP element
		int imm5 = rm;
		if (!(imm5 & 15)) return;
		o->ra = __builtin_ctz(imm5); o->k = imm5 >> (o->ra + 1); o->sh = 1 << o->ra;
		OK(v_dupe);
	}
	if ((w & 0xdf800400) == 0x5f000400) { // shifts of 64-bit scalars
		int h = BITS(22, 16);
		if (!(h & 64)) return;
		o->ra = 3; o->sh = 8;
		switch (BITS(15, 11)) {
		case 0: o->k = 128 - h; OK(U ? v_ushr : v_sshr);
		case 10: o->k = h - 64; OK(U ? v_sli : v_shl);
		}
		return;
	}
	if ((w & 0xdf20fc00) == 0x5e208400 && size == 3) { o->ra = 3; o->sh = 8; OK(U ? v_sub : v_add); }
	if ((w & 0xdfbffc00) == 0x5e21d800) { o->sh = BIT(22); o->k = U; OK(i_scvtf_s); }
}
