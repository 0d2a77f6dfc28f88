L='src/lib.rs'
PATHC="""        let path = path.as_os_str();
        match path.as_bytes().first() {
            Some(0) => rn::SocketAddrUnix::new_abstract_name(path.as_bytes().get(1..).unwrap())?,
            _ => rn::SocketAddrUnix::new(path)?,
        }
"""
def v(n,b): return (n,[(L,PATHC,b)])
M=[
v('p-if-empty',"""        let bytes = path.as_os_str().as_bytes();
        if !bytes.is_empty() && bytes[0] == 0 {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('p-len',"""        let bytes = path.as_os_str().as_bytes();
        let abstract_name = bytes.len() > 0 && bytes[0] == 0;
        if abstract_name {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('p-split-at',"""        let bytes = path.as_os_str().as_bytes();
        if bytes.starts_with(&[0]) {
            let (_, name) = bytes.split_at(1);
            rn::SocketAddrUnix::new_abstract_name(name)?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('p-pattern',"""        match path.as_os_str().as_bytes() {
            [0, name @ ..] => rn::SocketAddrUnix::new_abstract_name(name)?,
            _ => rn::SocketAddrUnix::new(path)?,
        }
"""),
v('p-splitfirst',"""        match path.as_os_str().as_bytes().split_first() {
            Some((&0, name)) => rn::SocketAddrUnix::new_abstract_name(name)?,
            _ => rn::SocketAddrUnix::new(path)?,
        }
"""),
v('p-copied',"""        let bytes = path.as_os_str().as_bytes();
        if bytes.first().copied() == Some(0) {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('p-firsteq',"""        let bytes = path.as_os_str().as_bytes();
        if bytes.first() == Some(&0) {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('p-ifletchain',"""        let bytes = path.as_os_str().as_bytes();
        let name = bytes.first().filter(|&&b| b == 0).map(|_| &bytes[1..]);
        match name {
            Some(name) => rn::SocketAddrUnix::new_abstract_name(name)?,
            None => rn::SocketAddrUnix::new(path)?,
        }
"""),
v('p-isaand',"""        let bytes = path.as_os_str().as_bytes();
        if bytes.first().is_some_and(|&b| b == b'\\0') {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('p-early',"""        let bytes = path.as_os_str().as_bytes();
        if bytes.is_empty() {
            rn::SocketAddrUnix::new(path)?
        } else if bytes[0] != 0 {
            rn::SocketAddrUnix::new(path)?
        } else {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        }
"""),
v('b-abstract-0',"""        let bytes = path.as_os_str().as_bytes();
        if !bytes.is_empty() && bytes[0] == 0 {
            rn::SocketAddrUnix::new_abstract_name(&bytes[0..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('b-panic-1',"""        let bytes = path.as_os_str().as_bytes();
        if bytes[0] == 0 {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('b-panic-2',"""        let bytes = path.as_os_str().as_bytes();
        if bytes.starts_with(&[0]) {
            rn::SocketAddrUnix::new_abstract_name(&bytes[2..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
v('b-len1',"""        let bytes = path.as_os_str().as_bytes();
        if bytes.len() > 1 && bytes[0] == 0 {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
]
