import sys
old=open('/repo/src/lib.rs').read()
a='''        match path.as_bytes().first() {
            Some(0) => rn::SocketAddrUnix::new_abstract_name(path.as_bytes().get(1..).unwrap())?,
            _ => rn::SocketAddrUnix::new(path)?,
        }
'''
V={'pat':open('/tmp/v.rs').read(),
'strip':'''        match path.as_bytes().strip_prefix(&[0]) {
            Some(rest) => rn::SocketAddrUnix::new_abstract_name(rest)?,
            None => rn::SocketAddrUnix::new(path)?,
        }
''',
'split':'''        match path.as_bytes().split_first() {
            Some((0, rest)) => rn::SocketAddrUnix::new_abstract_name(rest)?,
            _ => rn::SocketAddrUnix::new(path)?,
        }
''',
'starts':'''        let bytes = path.as_bytes();
        if bytes.starts_with(b"\\0") {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
''',
'idx':'''        let bytes = path.as_bytes();
        if !bytes.is_empty() && bytes[0] == 0 {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
''',
'copied':'''        let bytes = path.as_bytes();
        if bytes.first().copied() == Some(0) {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
''',
'eq':'''        let bytes = path.as_bytes();
        if bytes.first() == Some(&0) {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
'''}
open('/repo/src/lib.rs','w').write(old.replace(a,V[sys.argv[1]]))
