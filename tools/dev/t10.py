import sys; sys.path.insert(0,'/verif')
from sa.common import *
c=Ctx(__import__("os").environ.get("MIR",__import__("os").environ.get("MIR",__import__("os").environ.get("MIR",__import__("os").environ.get("MIR",__import__("os").environ.get("MIR",__import__("os").environ.get("MIR",__import__("os").environ.get("MIR","/verif/.build/mir.json"))))))),"/verif/.build/models.json")
b=c.body('Async::<std::os::unix::net::stream::UnixStream>::connect' if sys.argv[1]=='u' else 'Async::<std::net::tcp::TcpStream>::connect')
class P:
    def on(self,eng,st,ev):
        if ev[0]=="call" and ev[1].split("::")[-1] in ("connect_any","new","new_abstract_name","socket_with"):
            print(ev[1],[show(st.rd(*st.deref(a))) if a.t=="ref" else show(a) for a in ev[3]])
            if ev[1].endswith("new") or ev[1].endswith("name") or ev[1].endswith("with"):
                for k,x in st.eqf.items(): print("    ",show(k),"=",show(x))
                for k,x in st.nef.items(): print("   !=",show(k),x)
cap=Capture(); e=c.engine([cap]); e.run(b,fargs(b))
poll_states(c,'x',cap.vals[0][0],cap.vals[0][1].mem,lambda _:[P()])
