exec(open('/tmp/mut.py').read())
F='src/lib.rs'
rw='''            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;'''
def sub(s,a,b):
    assert a in s,a
    return s.replace(a,b)
M=[
('o-intr',F,rw,sub(rw,'                res =>','                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,\n                res =>')),
('o-wait-intr',F,rw,sub(rw,'== io::ErrorKind::WouldBlock','== io::ErrorKind::WouldBlock || err.kind() == io::ErrorKind::Interrupted')),
('o-dir',F,rw,sub(rw,'self.readable()','self.writable()')),
('o-ignore-wait-err',F,rw,sub(rw,'.await?;','.await.ok();')),
('o-wait-first',F,rw,'optimistic(self.readable()).await?;\n'+rw),
('o-not-optimistic',F,rw,sub(rw,'optimistic(self.readable())','self.readable()')),
('o-spin',F,rw,sub(rw,'optimistic(self.readable()).await?;','let _ = self.readable();')),
('1write-dir',F,'ready!(self.poll_writable(cx))?;','ready!(self.poll_readable(cx))?;'),
('1read-dir',F,'ready!(self.poll_readable(cx))?;','ready!(self.poll_writable(cx))?;'),
('o-flush-close',F,'''    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)''','''    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))'''),
('o-peek-recv',F,'self.read_with(|io| io.peek_from(buf)).await','self.read_with(|io| io.recv_from(buf)).await'),
('o-recv-peek',F,'self.read_with(|io| io.recv(buf)).await','self.read_with(|io| io.peek(buf)).await'),
('o-send-dir',F,'self.write_with(|io| io.send(buf)).await','self.read_with(|io| io.send(buf)).await'),
('o-buf',F,'self.write_with(|io| io.send(buf)).await','self.write_with(|io| io.send(&buf[..0])).await'),
('o-vect',F,'read_vectored(bufs) {','read(&mut bufs[0]) {'),
('o-eof',F,'''            match (*self).get_ref().read(buf) {
''','''            match (*self).get_ref().read(buf) {
                Ok(0) => return Poll::Ready(Err(io::ErrorKind::UnexpectedEof.into())),
'''),
('o-accept-err',F,'let (stream, addr) = self.read_with(|io| io.accept()).await?;\n        Ok((Async::new(stream)?, addr))','''let (stream, addr) = loop {
            match self.read_with(|io| io.accept()).await {
                Ok(x) => break x,
                Err(e) if e.kind() == io::ErrorKind::ConnectionAborted => continue,
                Err(e) => return Err(e),
            }
        };
        Ok((Async::new(stream)?, addr))'''),
('o-incoming-end',F,'''let res = listener.accept().await.map(|(stream, _)| stream);
            Some((res, listener))''','''let res = listener.accept().await.map(|(stream, _)| stream);
            if res.is_err() { return None; }
            Some((res, listener))'''),
('o-opt-pending',F,'''        if !polled {
            polled = true;
            fut.as_mut().poll(cx)''','''        if !polled {
            polled = true;
            let _ = fut.as_mut().poll(cx); Poll::Pending'''),
('o-opt-twice',F,'''            polled = true;
            fut.as_mut().poll(cx)''','''            fut.as_mut().poll(cx)'''),
('o-opt-droperr',F,'''            polled = true;
            fut.as_mut().poll(cx)''','''            polled = true;
            fut.as_mut().poll(cx).map(|_| Ok(()))'''),
]
run(M,[('rules_ops','analyse_ops')])
