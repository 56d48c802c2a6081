"""Types that can be the source of an error, with what source() must return for them."""

E = "std::error::Error"

# ty: values; addr: expressions over `s: &ty` whose addresses source() may return; dyn: the
# expression of type &(dyn Error + 'static); down: the concrete type that it must downcast to.
SOURCES = []


def add(ty, vals, addr=("kit::addr(s)",), dyn="s", down=True, cls="plain"):
    SOURCES.append({"ty": ty, "vals": vals, "addr": list(addr), "dyn": dyn, "down": ty if down is True else down, "cls": cls})


add("kit::Leaf", ["kit::Leaf(1)", "kit::Leaf(2)"])
add("kit::Leaf2", ["kit::Leaf2(3)"])
add("kit::Node", ["kit::Node(4, kit::Leaf(5))"])
add("kit::Link", ["kit::Link(6, Some(Box::new(kit::Node(7, kit::Leaf(8)))))", "kit::Link(9, None)"])
add("kit::GLeaf<u8>", ["kit::GLeaf(1, 10)"])
add("kit::GLeaf<std::string::String>", ['kit::GLeaf(String::from("g"), 11)'])
add("kit::Borrowed<'static>", ['kit::Borrowed("bor")'])
add("kit::opt::none::Option", ["kit::opt::none::Option(50)"], cls="named Option")
add("kit::opt::two::Option<u8, i8>", ["kit::opt::two::Option(51, -51)"], cls="named Option")
add("kit::opt::life::Option<'static>", ['kit::opt::life::Option("52")'], cls="named Option")
add("kit::opt::konst::Option<2>", ["kit::opt::konst::Option([5, 3])"], cls="named Option")
# Not a field of its own: taken for an Option.
add("kit::opt::one::Option<u8>", ["kit::opt::one::Option(54)"], cls="Option of one named Option")
add("std::io::Error", ["std::io::Error::from(std::io::ErrorKind::NotFound)",
                       "std::io::Error::new(std::io::ErrorKind::Other, kit::Node(12, kit::Leaf(13)))"])  # fmt: skip
add("std::fmt::Error", ["std::fmt::Error"], addr=())
add("std::num::ParseIntError", ['"x".parse::<u8>().unwrap_err()'])
add("std::str::Utf8Error", ["std::str::from_utf8(&[0xff]).unwrap_err()"])
add("Box<kit::Leaf>", ["Box::new(kit::Leaf(14))"], cls="box")
add("std::sync::Arc<kit::Node>", ["std::sync::Arc::new(kit::Node(15, kit::Leaf(16)))"], cls="arc")
DYN = "&**s as &(dyn std::error::Error + 'static)"
for auto in ["", " + Send", " + Send + Sync", " + Sync + Send", " + Send + Sync + 'static", " + 'static",
             " + Send + Sync + std::panic::UnwindSafe"]:  # fmt: skip
    add(f"Box<dyn {E}{auto}>", ["Box::new(kit::Leaf(17))", "Box::new(kit::Node(18, kit::Leaf(19)))"],
        addr=["kit::addr(&**s)"], dyn=DYN, down=None, cls="box dyn")  # fmt: skip
add(f"std::sync::Arc<dyn {E} + Send + Sync>", ["std::sync::Arc::new(kit::Node(20, kit::Leaf(21)))"],
    addr=["kit::addr(s)", "kit::addr(&**s)"], dyn=DYN, down=None, cls="arc dyn")  # fmt: skip
add(f"std::rc::Rc<dyn {E}>", ["std::rc::Rc::new(kit::Leaf(22))"],
    addr=["kit::addr(s)", "kit::addr(&**s)"], dyn=DYN, down=None, cls="rc")  # fmt: skip
add("std::rc::Rc<kit::Node>", ["std::rc::Rc::new(kit::Node(23, kit::Leaf(24)))"],
    addr=["kit::addr(s)", "kit::addr(&**s)"], dyn=DYN, down=None, cls="rc")  # fmt: skip
add("&'static kit::Leaf", ["&kit::Leaf(25)"], addr=["kit::addr(s)", "kit::addr(&**s)"], dyn=DYN, down=None, cls="ref")
add(f"&'static (dyn {E} + Send + Sync + 'static)", ["&kit::Leaf(26)"], addr=["kit::addr(s)", "kit::addr(&**s)"],
    dyn=DYN, down=None, cls="ref")  # fmt: skip
add("kit::anyhow::Error", ["kit::anyhow::Error::new(kit::Node(27, kit::Leaf(28)))", 'kit::anyhow::anyhow!("any")',
                           'kit::anyhow::Error::new(kit::Leaf(29)).context("ctx")'],
    addr=["kit::addr(&**s)"], dyn=DYN, down=None, cls="anyhow")  # fmt: skip
SOURCES = [s for s in SOURCES if s]

OPTION = ["Option<{}>", "Option<{}>", "std::option::Option<{}>", "::core::option::Option<{}>", "core::option::Option<{}>", "Option<{},>",
          "Option::<{}>", "std::option::Option::<{},>", "::core::option::Option::<{}>"]  # fmt: skip


def source_field(draw, optional=True, pool=SOURCES):
    from .gen import chance, pick

    t = pick(draw, pool)
    must = t["cls"] == "Option of one named Option"
    if must and not optional:
        t, must = pool[0], False
    f = {
        "ty": t["ty"], "caps": "", "cls": "src", "name": None, "attrs": [], "opt": False,
        "vals": [pick(draw, t["vals"]) for _ in range(2)], "t": t, "bare": t["ty"],
    }  # fmt: skip
    if must or optional and chance(draw, 1, 3):
        f["opt"] = True
        f["ty"] = pick(draw, OPTION).format(f["ty"])
        f["vals"] = [v if chance(draw, 3, 4) else None for v in f["vals"]]
        f["vals"] = ["None" if v is None else f"Some({v})" for v in f["vals"]]
    return f


def src_expr(f, r):
    """An expression of type Option<&(dyn Error + 'static)> for the field bound to r."""
    if f["opt"]:
        return f"match {r} {{ Some(s) => Some({f['t']['dyn']}), None => None }}"
    return f"{{ let s = {r}; Some({f['t']['dyn']}) }}"


def addr_expr(f, r):
    """An expression of type Option<Vec<*const ()>>: None for no source."""
    v = "vec![" + ", ".join(f["t"]["addr"]) + "]"
    if f["opt"]:
        return f"match {r} {{ Some(s) => Some({v}), None => None }}"
    return f"{{ let s = {r}; Some({v}) }}"


def canon(ty):
    """Equal for types that are the same type however they are written."""
    for opt in OPTION:
        a, b = opt.split("{}")
        if ty.startswith(a) and ty.endswith(b) and not (b == ">" and ty.endswith(",>")):
            ty = ty[len(a):-len(b)]
            break
    ty = ty.replace(" + 'static", "")
    return ty.replace("Sync + Send", "Send + Sync").replace("std::string::String", "String")


def hand_from(path, v, i, generics="", ty="T", where=""):
    """impl From<...> for the #[from] field number i of the variant."""
    f = v["fields"][i]
    init = "s" if not f["opt"] else "Some(s)"
    nm = i if f["name"] is None else f["name"]
    for k, b in enumerate(v["fields"]):
        if b["cls"] == "bt":
            init += f", {k if b['name'] is None else b['name']}: {b['init'].format('std::backtrace::Backtrace::capture()')}"
    return f"impl{generics} From<{f['bare']}> for {ty} {where} {{ fn from(s: {f['bare']}) -> Self {{ {path} {{ {nm}: {init} }} }} }}"


FROM = ("#[from]", "#[cfg_attr(all(), from)]")


def is_from(f):
    """Other forms, such as #[from(skip)] and #[from = "x"], belong to some other derive."""
    return any(a in FROM for a in f["attrs"])


def hand_froms(case, path):
    return "\n".join(
        hand_from(path(case, v), v, i) for v in case["variants"] for i, f in enumerate(v["fields"]) if is_from(f)
    )
