"""Reference model of SVD processing: a direct, denotational reading of the CMSIS-SVD rules SVDSuite documents.

It works on the abstract documents of ``doc.py`` and shares no code and no algorithm with the implementation
(no graph, no rounds, no placeholders): derivation is evaluated lazily by reference.
``expand(dev)`` returns ``(tree, warnings)`` or raises ``Err``.
"""
import re

OK_SIZES = {8: 1, 16: 2, 32: 4, 64: 4, 128: 4}  # size in bits -> alignment in bytes
U32 = 0xFFFFFFFF


class Err(Exception):
    """the document has to be rejected"""


class Undef(Exception):
    """the model does not define the outcome for this document"""


LEVEL = {"peripheral": "P", "cluster": "C", "register": "R", "field": "F", "enumeratedValues": "V"}
INHERIT = {
    "peripheral": ["size", "access", "protection", "resetValue", "resetMask", "version", "description",
                   "alternatePeripheral", "groupName", "prependToName", "appendToName", "disableCondition"],
    "cluster": ["size", "access", "protection", "resetValue", "resetMask", "description", "alternateCluster",
                "headerStructName"],
    "register": ["size", "access", "protection", "resetValue", "resetMask", "description", "alternateGroup",
                 "alternateRegister", "dataType", "modifiedWriteValues", "writeConstraint", "readAction"],
    "field": ["access", "description", "modifiedWriteValues", "writeConstraint", "readAction"],
}
OWN = {"peripheral": ["headerStructName"], "cluster": [], "register": [], "field": []}


def dim_labels(dim, index):
    if index is None:
        return [str(i) for i in range(dim)]
    m = re.fullmatch(r"([0-9]+)-([0-9]+)", index)
    if m:
        lo, hi = int(m[1]), int(m[2])
        if lo > hi:
            raise Err("dimIndex range reversed")
        out = [str(i) for i in range(lo, hi + 1)]
    elif re.fullmatch(r"[A-Z]-[A-Z]", index):
        lo, hi = ord(index[0]), ord(index[2])
        if lo >= hi:
            raise Err("dimIndex range reversed")
        out = [chr(i) for i in range(lo, hi + 1)]
    elif re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", index):
        out = [p.strip() for p in index.split(",")]
    elif re.fullmatch(r"[_0-9a-zA-Z]+", index):
        out = [index]
    else:
        raise Err("dimIndex malformed")
    if len(out) != dim:
        raise Err("dimIndex length does not match dim")
    return out


class Node:
    """one processed element: a plain element, the template of a dim element, or one dim instance"""
    __slots__ = ("decl", "name", "tmpl", "at", "dim", "dimIndex", "dimIncrement", "off", "disp", "rng", "blocks",
                 "irqs")


class Model:
    def __init__(self, dev):
        self.dev = dev
        self.parent = {}
        self.warns = []
        self._base = {}
        self._nodes = {}
        self._kids = {}
        self._conts = {}
        self._index(dev)

    def _index(self, e):
        for c in e.ch:
            if c.kind != "enumeratedValue":
                self.parent[id(c)] = e
                self._index(c)

    def warn(self, kind, *names):
        self.warns.append((kind, names))

    # ---- inheritance ------------------------------------------------------------------------------------------
    def kids(self, decl):
        """declarations that are children of decl: its own, then those of its base"""
        k = id(decl)
        if k in self._kids:
            v = self._kids[k]
            if v is None:
                raise Err("cyclic inheritance")
            return v
        self._kids[k] = None
        try:
            own = [c for c in decl.ch if c.kind != "enumeratedValue"]
            if decl.df is not None and decl.kind != "enumeratedValues":
                own = own + self.kids(self.base(decl)[0])
        except Err:
            del self._kids[k]
            raise
        self._kids[k] = own
        return own

    def names(self, decl, want):
        """[(name, ref)] under which decl can be addressed; ref = (decl, instance index or None). Instances whose names
        cannot be ``want`` are left out unexpanded."""
        out = [(decl.name, (decl, None))]
        if decl.kind != "enumeratedValues" and "%s" in (decl.name or ""):
            cut = decl.name.split("[%s]" if "[%s]" in decl.name else "%s")
            if not want.startswith(cut[0]) or not want.endswith(cut[-1]):
                return out
            try:
                ns = self.nodes(decl)
            except Err:
                return out
            for i, n in enumerate(ns[1:]):
                out.append((n.name, (decl, i)))
        return out

    def _search(self, decls, parts, exclude, level):
        found = []
        for d in decls:
            if d is exclude:
                continue
            for name, ref in self.names(d, parts[0]):
                if name != parts[0]:
                    continue
                if len(parts) == 1:
                    if LEVEL[d.kind] == level:
                        found.append(ref)
                else:
                    found += self._search(self.kids(d), parts[1:], exclude, level)
        if len(found) > 1:
            pick = []
            for d, i in found:
                if d.kind == "register" and self.nodes(d)[0].at["alternateGroup"] is None:
                    pick.append((d, i))
            if len(pick) == 1:
                return pick
            raise Err("ambiguous derivedFrom path")
        return found

    def base(self, decl):
        """(decl, instance) decl derives from"""
        k = id(decl)
        if k in self._base:
            v = self._base[k]
            if v is None:
                raise Err("cyclic inheritance")
            return v
        self._base[k] = None
        try:
            parts = decl.df.split(".")
            level = LEVEL[decl.kind]
            par = self.parent[id(decl)]
            sib = self.kids(par) if par.kind != "device" else par.ch
            m = self._search(sib, parts, decl, level)
            if not m:
                m = self._search(self.dev.ch, parts, decl, level)
            if not m:
                raise Err("derivedFrom path does not resolve")
        except Err:
            del self._base[k]
            raise
        self._base[k] = m[0]
        return m[0]

    def ref_node(self, ref):
        d, i = ref
        ns = self.nodes(d)
        return ns[0] if i is None else ns[1 + i]

    def nodes(self, decl):
        """[plain] or [template, instance 0, instance 1, ...]"""
        k = id(decl)
        if k in self._nodes:
            v = self._nodes[k]
            if v is None:
                raise Err("cyclic inheritance")
            return v
        self._nodes[k] = None
        try:
            v = self._make(decl)
        except Err:
            del self._nodes[k]
            raise
        self._nodes[k] = v
        return v

    def _make(self, decl):
        a = decl.a
        kind = decl.kind
        b = self.ref_node(self.base(decl)) if decl.df is not None else None

        def own_or(key, inherited):
            v = a.get(key)
            return v if v is not None else (inherited if b is not None else None)

        dim = own_or("dim", b and b.dim)
        dim_index = own_or("dimIndex", b and b.dimIndex)
        inc = own_or("dimIncrement", b and b.dimIncrement)
        name = decl.name
        disp = own_or("displayName", b and b.disp) if kind == "register" else None
        use_dim = dim
        if dim is None and "%s" in name:
            raise Err("%s in name without dim")
        if dim is not None and "%s" not in name:
            self.warn("dim-ignored", name)
            use_dim = None
        if disp is not None and use_dim is None and "%s" in disp:
            raise Err("%s in displayName without dim")

        if use_dim is None:
            labels, disps, names = [None], [disp], [name]
        else:
            if use_dim < 1:
                raise Err("dim < 1")
            if "[%s]" in name:
                if kind == "field":
                    raise Err("field array")
                if disp is not None and "[%s]" not in disp and "%s" in disp:
                    raise Err("list displayName on array")
                labels = [str(i) for i in range(use_dim)]
                names = [name.replace("[%s]", x) for x in labels]
                disps = [disp if disp is None else disp.replace("[%s]", x) for x in labels]
            else:
                if kind == "peripheral":
                    raise Err("peripheral list")
                if disp is not None and "[%s]" in disp:
                    raise Err("array displayName on list")
                labels = dim_labels(use_dim, dim_index)
                names = [name.replace("%s", x) for x in labels]
                disps = [disp if disp is None else disp.replace("%s", x) for x in labels]

        at = {key: own_or(key, b and b.at[key]) for key in INHERIT[kind]}
        for key in OWN[kind]:
            at[key] = a.get(key)
        if kind in ("register", "field") and at["modifiedWriteValues"] is None:
            at["modifiedWriteValues"] = "modify"

        rng = self._range(decl, b) if kind == "field" else None
        blocks = irqs = None
        if kind == "peripheral":
            own_blocks = sorted([(o or 0, s, u, p or "any") for o, s, u, p in a.get("addressBlock", ())],
                                key=lambda t: t[0])
            blocks = own_blocks or (b.blocks if b is not None else [])
            irqs = sorted([(n, d, v or 0) for n, d, v in a.get("interrupt", ())], key=lambda t: t[2])

        def mk(idx, nm, dn, tmpl, inst):
            n = Node()
            n.decl, n.name, n.tmpl, n.at, n.disp = decl, nm, tmpl, at, dn
            n.dim, n.dimIndex, n.dimIncrement = (None, None, None) if inst else (dim, dim_index, inc)
            step = 0 if inc is None else inc * idx
            n.off = None
            if kind == "peripheral":
                n.off = a["baseAddress"] + step
            elif kind != "field":
                n.off = a["addressOffset"] + step
            n.rng = None if rng is None else (rng[0] + step, rng[1] + step)
            n.blocks, n.irqs = blocks, irqs
            return n

        if use_dim is None:
            return [mk(0, names[0], disps[0], False, False)]
        return [mk(0, name, disps[0], True, False)] + [mk(i, names[i], disps[i], False, True)
                                                       for i in range(use_dim)]

    def _range(self, decl, b):
        a = decl.a
        blo = b.rng[0] if b else None
        bhi = b.rng[1] if b else None

        def pick(own, inherited):
            return own if own is not None else inherited

        lo = hi = None
        if "bitOffset" in a or "bitWidth" in a:
            o = pick(a.get("bitOffset"), blo)
            w = pick(a.get("bitWidth"), bhi - blo + 1 if b else None)
            if o is not None and w is not None:
                lo, hi = o, o + w - 1
        if "lsb" in a or "msb" in a:
            l = pick(a.get("lsb"), blo)
            h = pick(a.get("msb"), bhi)
            if l is not None and h is not None:
                lo, hi = l, h
        if "bitRange" in a:
            m = re.fullmatch(r"\[(\d+):(\d+)\]", a["bitRange"])
            if not m:
                raise Err("bad bitRange")
            hi, lo = int(m[1]), int(m[2])
            if hi < lo:
                self.warn("bitrange-swap", a["bitRange"])
                hi, lo = lo, hi
        if lo is None:
            raise Err("field without bit range")
        if hi < lo:
            self.warn("msb<lsb", decl.name)
        return (lo, hi)

    # ---- enumerated values ------------------------------------------------------------------------------------
    def enum_decl(self, c):
        """the container whose content c has"""
        seen = set()
        while c.df is not None:
            if id(c) in seen:
                raise Err("cyclic inheritance")
            seen.add(id(c))
            c = self.base(c)[0]
        return c

    def enum(self, c, lo, hi):
        c = self.enum_decl(c)
        width = hi - lo + 1
        if width < 1:
            raise Undef("field without bits")
        names, values = set(), set()
        out, default = [], None
        for e in c.ch:
            n, v, desc = e.a["name"], e.a.get("value"), e.a.get("description")
            isd = bool(e.a.get("isDefault"))
            vals, wild = enum_literal(v) if v is not None else ([None], False)
            for x in vals:
                if n.lower() == "reserved":
                    self.warn("enum-ignored", n)
                    continue
                nm = f"{n}_{x}" if wild else n
                if nm in names:
                    self.warn("enum-ignored", nm)
                    continue
                if x is not None and x in values:
                    self.warn("enum-ignored", nm)
                    if isd:
                        raise Undef("default repeats a value")
                    continue
                if isd:
                    if x is not None:
                        self.warn("enum-default-value", nm)
                    if default is not None:
                        raise Err("two defaults")
                    default = (nm, desc)
                    names.add(nm)
                    continue
                names.add(nm)
                if x is not None:
                    values.add(x)
                out.append((nm, desc, x))
        top = (1 << width) - 1
        if default is not None:
            for x in range(top + 1):
                nm = f"{default[0]}_{x}"
                if x not in values and nm in names:
                    self.warn("enum-ignored", nm)
                elif x not in values:
                    out.append((nm, default[1], x))
        res = []
        for nm, desc, x in sorted(out, key=lambda t: t[2] if t[2] is not None else 0):
            if x is None:
                raise Err("enumerated value without value")
            if x > top:
                self.warn("enum-ignored", nm)
                continue
            res.append({"name": nm, "description": desc, "value": x})
        return {"name": c.a.get("name"), "header_enum_name": c.a.get("headerEnumName"),
                "usage": c.a.get("usage", "read-write"), "values": res}

    # ---- the processed tree -----------------------------------------------------------------------------------
    def run(self):
        d = self.dev
        props = {"size": d.a.get("size", 32), "access": d.a.get("access", "read-write"),
                 "protection": d.a.get("protection", "any"), "resetValue": d.a.get("resetValue", 0),
                 "resetMask": d.a.get("resetMask", U32)}
        # everything that is declared gets resolved, including what nothing refers to
        for e in d.walk():
            if e.kind in ("device", "enumeratedValue"):
                continue
            if e.kind == "enumeratedValues":
                self.enum_decl(e)
            else:
                self.nodes(e)
        roots = []
        for p in d.ch:
            for n in self.nodes(p):
                if not n.tmpl:
                    roots.append((n, self.layout(n, props["size"], [])))
        roots.sort(key=lambda t: (t[0].off, t[0].name))
        out = []
        for n, lay in roots:
            p = self.peripheral(n, lay, props)
            if p is not None:
                out.append(p)
        if len({p["name"] for p in out}) != len(out):
            raise Err("duplicate peripheral name")
        out.sort(key=lambda p: (p["base_address"], p["name"]))
        self.overlap_peripherals(out)
        return {"props": props, "peripherals": out}

    def layout(self, n, inherited, stack):
        """(adjusted size, [(child node, child layout)]) of a peripheral or cluster node"""
        if id(n.decl) in stack:
            raise Err("cyclic containment")
        explicit = n.at["size"]
        ctx = explicit if explicit is not None else inherited
        ch = []
        for c in self.kids(n.decl):
            for m in self.nodes(c):
                if m.tmpl:
                    continue
                if c.kind == "cluster":
                    ch.append((m, self.layout(m, ctx, stack + [id(n.decl)])))
                else:
                    self.conts(m)   # enumerations are looked at even if something around them is dropped
                    ch.append((m, None))
        if not ch:
            return (explicit, [])
        best = -1
        for m, lay in ch:
            s = lay[0] if lay is not None else m.at["size"]
            if s is None:
                s = ctx
            elif s % 8:
                s = 0
            best = max(best, s)
        return (best, ch)

    def merged(self, n, props, size):
        r = {}
        for k in ("access", "protection", "resetValue", "resetMask"):
            r[k] = n.at[k] if n.at[k] is not None else props[k]
        r["size"] = size if size is not None else props["size"]
        return r

    def peripheral(self, n, lay, props):
        pr = self.merged(n, props, lay[0])
        base = n.off
        rcs = self.rcs(lay[1], pr, base)
        if not rcs:
            self.warn("ignored", n.name)
            return None
        if base % 4:
            self.warn("unaligned", n.name)
        if pr["size"] % 8:
            self.warn("ignored", n.name)
            return None
        if not n.blocks:
            raise Err("no address blocks")
        for (o1, s1, _, _), (o2, s2, _, _) in zip(n.blocks, n.blocks[1:]):
            if o2 < o1 + s1:
                self.warn("blocks-overlap")   # the text names no peripheral
        end = max(base + o + s - 1 for o, s, _, _ in n.blocks)
        eff = max(rc["end"] for rc in rcs)
        at = n.at
        return {
            "name": n.name, "version": at["version"], "description": at["description"],
            "alternate_peripheral": at["alternatePeripheral"], "group_name": at["groupName"],
            "prepend_to_name": at["prependToName"], "append_to_name": at["appendToName"],
            "header_struct_name": at["headerStructName"], "disable_condition": at["disableCondition"],
            "base_address": base, "blocks": [list(b) for b in n.blocks], "interrupts": [list(i) for i in n.irqs],
            **props_out(pr), "end_address": end, "end_address_effective": eff,
            "peripheral_size": sum(s for _, s, _, _ in n.blocks), "peripheral_size_effective": eff - base + 1,
            "children": rcs,
            "registers": sorted([(r["base_address"], r["name"]) for r in flat(rcs)]),
        }

    def rcs(self, ch, pr, base):
        out = []
        keys = {}
        for m, lay in sorted(ch, key=lambda t: (t[0].off, t[0].name)):
            rc = self.cluster(m, lay, pr, base) if lay is not None else self.register(m, pr, base)
            if rc is None:
                continue
            key = rc["name"]
            if rc["kind"] == "register" and rc["alternate_group"]:
                key = f"{key}_{rc['alternate_group']}"
            if key in keys:
                raise Err("duplicate register/cluster name")
            keys[key] = rc
            out.append(rc)

        def sk(rc):
            alt = rc.get("alternate_group")
            return (rc["base_address"], (0, "") if alt is None else (1, alt), rc["name"])

        out.sort(key=sk)
        self.overlap_rcs(out, keys)
        return out

    def size_ok(self, m, size):
        if size % 8:
            self.warn("ignored", m.name)
            return False
        if size not in OK_SIZES:
            raise Err("unsupported size")
        if m.off % OK_SIZES[size]:
            self.warn("unaligned", m.name)
        return True

    def cluster(self, m, lay, pr, base):
        p = self.merged(m, pr, lay[0])
        at = m.at
        addr = base + m.off
        if p["size"] == 0 or not lay[1]:
            # nothing usable inside: the cluster is dropped like an empty one
            kids = self.rcs(lay[1], p, addr)
            if not kids:
                self.warn("ignored", m.name)
                return None
        if not self.size_ok(m, p["size"]):
            return None
        kids = self.rcs(lay[1], p, addr)
        if not kids:
            self.warn("ignored", m.name)
            return None
        end = max(k["end"] for k in kids)
        return {"kind": "cluster", "name": m.name, "description": at["description"],
                "alternate_cluster": at["alternateCluster"], "header_struct_name": at["headerStructName"],
                "address_offset": m.off, "base_address": addr, "end_address": end, "end": end,
                "cluster_size": end - addr + 1, **props_out(p), "children": kids}

    def conts(self, m):
        """[(field node, enumerated value containers)] of a register node"""
        if id(m) in self._conts:
            return self._conts[id(m)]
        fields = []
        for c in self.kids(m.decl):
            for f in self.nodes(c):
                if f.tmpl:
                    continue
                conts = [self.enum(v, f.rng[0], f.rng[1]) for v in self.kids(c)]
                us = [v["usage"] for v in conts]
                if len(us) != len(set(us)) or len(us) > 2 or (len(us) == 2 and "read-write" in us):
                    raise Err("enumeratedValues usage")
                fields.append((f, sorted(conts, key=lambda v: v["usage"])))
        self._conts[id(m)] = fields
        return fields

    def register(self, m, pr, base):
        p = self.merged(m, pr, m.at["size"])
        at = m.at
        fields = self.conts(m)
        if not self.size_ok(m, p["size"]):
            return None
        if m.name.lower() == "reserved":
            self.warn("ignored", m.name)
            return None
        if at["alternateRegister"] is not None and at["alternateGroup"] is not None:
            raise Err("alternateRegister and alternateGroup")
        addr = base + m.off
        return {"kind": "register", "name": m.name, "display_name": m.disp, "description": at["description"],
                "alternate_group": at["alternateGroup"], "alternate_register": at["alternateRegister"],
                "address_offset": m.off, "base_address": addr, "end": addr + p["size"] // 8 - 1,
                **props_out(p), "data_type": at["dataType"], "modified_write_values": at["modifiedWriteValues"],
                "write_constraint": wc_out(at["writeConstraint"]), "read_action": at["readAction"],
                "fields": self.fields(fields, p, at)}

    def fields(self, fs, p, rat):
        out = []
        names = set()
        for f, conts in sorted(fs, key=lambda t: (t[0].rng[0], t[0].name)):
            if f.name.lower() == "reserved":
                self.warn("ignored", f.name)
                continue
            if f.name in names:
                raise Err("duplicate field name")
            names.add(f.name)
            lo, hi = f.rng
            at = f.at
            if hi >= p["size"]:
                self.warn("field-exceeds", f.name)
            wc = at["writeConstraint"] if at["writeConstraint"] is not None else rat["writeConstraint"]
            out.append({"name": f.name, "description": at["description"], "lsb": lo, "msb": hi, "bit_offset": lo,
                        "bit_width": hi - lo + 1, "bit_range": [hi, lo],
                        "access": at["access"] if at["access"] is not None else p["access"],
                        "modified_write_values": at["modifiedWriteValues"], "write_constraint": wc_out(wc),
                        "read_action": at["readAction"], "enums": conts})
        dom = {"read-only": "r", "write-only": "w"}
        for i, x in enumerate(out):
            for y in out[:i]:
                shared = set(dom.get(x["access"], "rw")) & set(dom.get(y["access"], "rw"))
                if shared and x["lsb"] <= y["msb"] and x["msb"] >= y["lsb"]:
                    raise Err("overlapping fields")
        return out

    # ---- overlap warnings -------------------------------------------------------------------------------------
    @staticmethod
    def closure(start, alts):
        """every name connected to start through alternate* references"""
        seen, todo = set(), [start]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            todo += [n for n, a in alts.items() if a == c]
            if alts.get(c) is not None:
                todo.append(alts[c])
        return seen

    def overlap_peripherals(self, ps):
        alts = {p["name"]: p["alternate_peripheral"] for p in ps}
        for i, p in enumerate(ps):
            for q in ps[:i]:
                for end in ("end_address_effective", "end_address"):
                    if p["base_address"] <= q[end] and not self.allowed(p["name"], q["name"], alts):
                        self.warn("overlap", p["name"], q["name"])

    def allowed(self, new, old, alts):
        if alts[new] is not None:
            return old in self.closure(alts[new], alts)
        return alts.get(old) == new

    def overlap_rcs(self, rcs, keys):
        seen = []
        alts = {"register": {}, "cluster": {}}
        for k, rc in keys.items():
            alts[rc["kind"]][k] = rc["alternate_register" if rc["kind"] == "register" else "alternate_cluster"]
        for rc in rcs:
            if rc.get("alternate_group") is not None:
                continue
            al = alts[rc["kind"]]
            for q in seen:
                if rc["base_address"] > q["end"]:
                    continue
                if al[rc["name"]] is not None:
                    ok = q["name"] in self.closure(al[rc["name"]], al)
                else:
                    ok = al.get(q["name"]) == rc["name"]
                if not ok:
                    self.warn("overlap", rc["name"], q["name"])
            seen.append(rc)


def enum_literal(v):
    s = v.lower()
    if s.startswith("#"):
        s = "0b" + s[1:]
    if s.startswith("0b"):
        bits = s[2:]
        if not bits or re.search(r"[^01x]", bits):
            raise Err("bad enumerated value")
        outs = [0]
        for ch in bits:
            outs = [o * 2 + b for o in outs for b in ((0, 1) if ch == "x" else (int(ch),))]
        return outs, "x" in bits
    if s.startswith("0x"):
        if not re.fullmatch(r"0x[0-9a-f]+", s):
            raise Err("bad enumerated value")
        return [int(s, 16)], False
    if not re.fullmatch(r"[0-9]+", s):
        raise Err("bad enumerated value")
    return [int(s)], False


def props_out(p):
    return {"size": p["size"], "access": p["access"], "protection": p["protection"],
            "reset_value": p["resetValue"], "reset_mask": p["resetMask"]}


def wc_out(w):
    if w is None:
        return None
    return {"write_as_read": w[1] if w[0] == "asread" else None,
            "use_enumerated_values": w[1] if w[0] == "enum" else None,
            "range": [w[1], w[2]] if w[0] == "range" else None}


def flat(rcs):
    for rc in rcs:
        if rc["kind"] == "register":
            yield rc
        else:
            yield from flat(rc["children"])


def expand(dev):
    m = Model(dev)
    tree = m.run()
    return tree, m.warns
