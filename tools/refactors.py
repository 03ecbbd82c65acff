#!/usr/bin/env python3
"""refactors.py [ids...]: edits that keep the behaviour, made in scratch copies of /repo; the checks of the properties concerned have to stay quiet"""
import sys, os, subprocess, tempfile, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AIO = 'anthunder/client/aio_client.py'
CL = 'anthunder/client/client.py'
BC = 'anthunder/client/base.py'
AL = 'anthunder/listener/aio_listener.py'
SL = 'anthunder/listener/sock_listener.py'
BL = 'anthunder/listener/base_listener.py'
CP = 'mysockpool/connection_pool.py'
PM = 'mysockpool/pool_manager.py'
RU = 'mysockpool/recently_used_container.py'
CO = 'mysockpool/connection.py'
WA = 'mysockpool/_wait.py'
UT = 'mysockpool/utils.py'
MC = 'anthunder/mesh/mesh_client.py'
SH = 'anthunder/protocol/_sofa_header.py'
PB = 'anthunder/protocol/_package_base.py'
RQ = 'anthunder/protocol/_request_pkg.py'
RS = 'anthunder/protocol/_response_pkg.py'
RT = 'anthunder/protocol/_rpc_trace_context.py'
TR = 'mytracer/tracer.py'
SP = 'mytracer/span.py'
SC = 'mytracer/span_context.py'
TI = 'mytracer/_trace_id.py'
RI = 'mytracer/_rpc_id.py'
RID = 'anthunder/helpers/request_id.py'
FR = 'anthunder/command/fail_response.py'
HB = 'anthunder/command/heartbeat.py'

R = []


def add(id, props, *edits):
    R.append((id, props.split(), edits))


add('aio-recv-helper', 'C06 C07 C08 C09', (AIO, """                fixed_header_bs = await reader.readexactly(BoltResponse.bolt_header_size())
                header = BoltResponse.bolt_header_from_stream(fixed_header_bs)
                bs = await reader.readexactly(header['class_len'] + header['header_len'] + header['content_len'])
                pkg = BoltResponse.bolt_content_from_stream(bs, header)
""", """                header = await self._read_fixed_header(reader)
                pkg = await self._read_rest(reader, header)
"""), (AIO, """    async def _recv_response(self, reader, writer):
""", """    @staticmethod
    async def _read_fixed_header(reader):
        return BoltResponse.bolt_header_from_stream(await reader.readexactly(BoltResponse.bolt_header_size()))

    @staticmethod
    async def _read_rest(reader, header):
        length = sum(header[k] for k in ('class_len', 'header_len', 'content_len'))
        return BoltResponse.bolt_content_from_stream(await reader.readexactly(length), header)

    async def _recv_response(self, reader, writer):
"""))
add('aio-known-id', 'C06 C07', (AIO, """                if pkg.request_id not in self.request_mapping:
                    continue
                self.response_mapping[pkg.request_id] = pkg
""", """                rid = pkg.request_id
                if rid in self.request_mapping:
                    self.response_mapping[rid] = pkg
"""))
add('aio-send-loop', 'C08 C07', (AIO, """        async def _send(retry=3):
            if retry <= 0:
                raise PyboltError("send request failed.")
            readtask, writer = await self._get_connection(address)
            try:
                await writer.drain()  # avoid back pressure
                writer.write(data)
                await writer.drain()
            except Exception as e:
                logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                readtask.cancel()
                if self.connection_mapping.get(address) == (readtask, writer):
                    # not yet replaced by another sender
                    self.connection_mapping.pop(address)
                await _send(retry - 1)
""", """        async def _send():
            for _ in range(3):
                readtask, writer = await self._get_connection(address)
                try:
                    await writer.drain()  # avoid back pressure
                    writer.write(data)
                    await writer.drain()
                    return
                except Exception as e:
                    logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                    readtask.cancel()
                    if self.connection_mapping.get(address) == (readtask, writer):
                        # not yet replaced by another sender
                        self.connection_mapping.pop(address)
            raise PyboltError("send request failed.")
"""))
add('aio-getconn', 'C08 C06', (AIO, """            # fast path return existed connection
            if address in self.connection_mapping:
                return self.connection_mapping[address]

            async with self._pending_dial.setdefault(address, asyncio.Lock()):
                if address in self.connection_mapping:
                    return self.connection_mapping[address]

                reader, writer = await asyncio.open_connection(*address)
                task = asyncio.ensure_future(self._recv_response(reader, writer))
                return self.connection_mapping.setdefault(address, (task, writer))
""", """            conn = self.connection_mapping.get(address)
            if conn is not None:
                return conn
            if address not in self._pending_dial:
                self._pending_dial[address] = asyncio.Lock()
            async with self._pending_dial[address]:
                conn = self.connection_mapping.get(address)
                if conn is None:
                    host, port = address
                    reader, writer = await asyncio.open_connection(host, port)
                    conn = (asyncio.ensure_future(self._recv_response(reader, writer)), writer)
                    self.connection_mapping[address] = conn
                return conn
"""))
add('aio-invoke-order', 'C06 C07 C09', (AIO, """        if resp.cmdcode != CMDCODE.RESPONSE:
            raise ServerError("wrong cmdcode:[{}]".format(resp.cmdcode))
        if resp.respstatus != RESPSTATUS.SUCCESS:
            raise ServerError.from_statuscode(resp.respstatus)
        return resp
""", """        return self._checked(resp)

    @staticmethod
    def _checked(resp):
        if resp.cmdcode == CMDCODE.RESPONSE:
            if resp.respstatus == RESPSTATUS.SUCCESS:
                return resp
            raise ServerError.from_statuscode(resp.respstatus)
        raise ServerError("wrong cmdcode:[{}]".format(resp.cmdcode))
"""))
add('aio-sync-helper', 'C07 C09', (AIO, """        fut = asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
        try:
            ret = fut.result(timeout=timeout_ms / 1000)
""", """        fut = self._submit(pkg)
        seconds = timeout_ms / 1000
        try:
            ret = fut.result(seconds)
"""), (AIO, """    def invoke_sync(self, interface, method, content, *,""", """    def _submit(self, pkg):
        return asyncio.run_coroutine_threadsafe(self.invoke(pkg), self._loop)

    def invoke_sync(self, interface, method, content, *,"""))
add('aio-hb-bool', 'C09', (AIO, """        if resp.request_id != pkg.request_id:
            logger.error("heartbeat response request_id({}) mismatch with request({}).".format(resp.request_id,
                                                                                               pkg.request_id))
            return False
        if resp.cmdcode != CMDCODE.HEARTBEAT:
            logger.error("wrong cmdcode ({}) in heartbeat response on request({}).".format(resp.cmdcode,
                                                                                           resp.request_id))
            return False
        if resp.respstatus != RESPSTATUS.SUCCESS:
            logger.error("heartbeat response status ({}) on request({}).".format(resp.respstatus, resp.request_id))
            return False
        return True
""", """        ok = (resp.request_id == pkg.request_id and resp.cmdcode == CMDCODE.HEARTBEAT
              and resp.respstatus == RESPSTATUS.SUCCESS)
        if not ok:
            logger.error("bad heartbeat response {} on {}".format(resp, pkg.request_id))
        return ok
"""))
add('cl-recv-helper', 'C13', (CL, """        with DefaultSelector() as sel:
            sel.register(c, EVENT_READ)
            total_size = pkg.bolt_header_size()
            resp_bytes = b''
            header = None
            while len(resp_bytes) < total_size:
                remaining = deadline - time.time()
                ready = remaining > 0 and sel.select(timeout=remaining)
                if not ready:
                    # timeout
                    c.close()
                    raise TimeoutError('Sync call timeout')
                for key, event in ready:
                    bs = key.fileobj.recv(total_size - len(resp_bytes))
                    if not bs:
                        # closed by the server before the response is complete
                        c.close()
                        raise ServerError("Connection closed by server")
                    resp_bytes += bs
                if not header and len(resp_bytes) >= total_size:
                    header = pkg.bolt_header_from_stream(resp_bytes)
                    body_size = header['class_len'] + header['header_len'] + header['content_len']
                    total_size += body_size
        self._get_pool(interface).put_conn(c)

        resp = pkg.bolt_content_from_stream(resp_bytes[pkg.bolt_header_size():], header)
""", """        head_size = pkg.bolt_header_size()
        with DefaultSelector() as sel:
            sel.register(c, EVENT_READ)
            head = self._recv_until(sel, c, head_size, deadline)
            header = pkg.bolt_header_from_stream(head)
            body = self._recv_until(sel, c, header['class_len'] + header['header_len'] + header['content_len'], deadline)
        self._get_pool(interface).put_conn(c)

        resp = pkg.bolt_content_from_stream(body, header)
"""), (CL, """    def invoke_async(self, interface""", """    @staticmethod
    def _recv_until(sel, c, size, deadline):
        got = b''
        while len(got) < size:
            remaining = deadline - time.time()
            ready = sel.select(timeout=remaining) if remaining > 0 else None
            if not ready:
                c.close()
                raise TimeoutError('Sync call timeout')
            for key, event in ready:
                bs = key.fileobj.recv(size - len(got))
                if not bs:
                    c.close()
                    raise ServerError("Connection closed by server")
                got += bs
        return got

    def invoke_async(self, interface"""))
add('cl-small', 'C13 C09', (CL, """        if resp.request_id != req_id:
            raise ServerError("RequestId not match")
        if resp.respstatus != RESPSTATUS.SUCCESS:
            raise ServerError.from_statuscode(resp.respstatus)
        return resp.content
""", """        if resp.request_id == req_id:
            if resp.respstatus == RESPSTATUS.SUCCESS:
                return resp.content
            raise ServerError.from_statuscode(resp.respstatus)
        raise ServerError("RequestId not match")
"""))
add('cl-retry-while', 'C13 C09', (CL, """        for i in range(3):
            # try three""", """        i = -1
        while i < 2:
            i += 1
            # try three"""))
add('base-address', 'C23', (BC, """        addr = SERVICE_MAP.get(interface, self.mesh_service_address)
        if isinstance(addr, str):
            logger.debug("address is str({}), using default port({})".format(addr, self.sofa_default_port))
            addr = (addr, self.sofa_default_port)
        return addr
""", """        try:
            addr = SERVICE_MAP[interface]
        except KeyError:
            return self.mesh_service_address
        if not isinstance(addr, str):
            return addr
        return addr, self.sofa_default_port
"""))
add('base-subscribe', 'C23', (BC, """        if not self._mesh_client:
            return
        for inf in interface:
            logger.info("Subscribe interface ({}) through mesh".format(inf))
            try:
                self._mesh_client.subscribe(inf)
                SERVICE_MAP[inf] = self.mesh_service_address
            except Exception as e:
                logger.error(e)
""", """        if self._mesh_client:
            for inf in interface:
                self._subscribe_one(inf)

    def _subscribe_one(self, inf):
        logger.info("Subscribe interface (%s) through mesh", inf)
        try:
            self._mesh_client.subscribe(inf)
        except Exception as e:
            logger.error(e)
            return
        try:
            SERVICE_MAP[inf] = self.mesh_service_address
        except KeyError as e:
            logger.error(e)
"""))
add('srv-fail-helper', 'C10 C11 C12', (AL, """        if not service:
            await self._write_msg(writer,
                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
            logger.error("Missing service name in sofa header [{}]".format(sofa_header))
            return
        method = sofa_header.get('sofa_head_method_name')
        if not method:
            await self._write_msg(writer,
                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
            logger.error("Missing method name in sofa header [{}]".format(sofa_header))
            return
""", """        method = sofa_header.get('sofa_head_method_name')
        if not service or not method:
            logger.error("Missing %s name in sofa header [%s]", 'method' if service else 'service', sofa_header)
            await self._fail(writer, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
            return
"""), (AL, """    async def _write_msg(self, writer, msg):
""", """    async def _fail(self, writer, request_id, status):
        await self._write_msg(writer, FailResponse.response_to(request_id, status).to_stream())

    async def _write_msg(self, writer, msg):
"""))
add('srv-read-frame', 'C10 C11', (AL, """                class_name = await reader.readexactly(header['class_len'])
                logger.debug("received classname({})".format(class_name))

                bs = await reader.readexactly(header['header_len'])
                logger.debug("received sofa header({})".format(bs))

                body = await reader.readexactly(header['content_len'])
                logger.debug("received sofa body({})".format(body))
""", """                class_name, bs, body = [await reader.readexactly(header[k])
                                        for k in ('class_len', 'header_len', 'content_len')]
                logger.debug("received classname({}), sofa header({}), body({})".format(class_name, bs, body))
"""))
add('srv-read-once', 'C10 C11', (AL, """                class_name = await reader.readexactly(header['class_len'])
                logger.debug("received classname({})".format(class_name))

                bs = await reader.readexactly(header['header_len'])
                logger.debug("received sofa header({})".format(bs))

                body = await reader.readexactly(header['content_len'])
                logger.debug("received sofa body({})".format(body))
""", """                a = header['class_len']
                b = a + header['header_len']
                rest = await reader.readexactly(b + header['content_len'])
                class_name, bs, body = rest[:a], rest[a:b], rest[b:]
"""))
add('srv-checks-first', 'C10 C11', (AL, """                if cmdcode != CMDCODE.REQUEST:
                    raise ClientError("wrong cmdcode:[{}]".format(cmdcode))

                if class_name != "com.alipay.sofa.rpc.core.request.SofaRequest".encode():
                    raise ClientError("wrong class_name:[{}]".format(class_name))
""", """                self._check_request(cmdcode, class_name)
"""), (AL, """    async def _handler_connection(self, reader, writer):
""", """    @staticmethod
    def _check_request(cmdcode, class_name):
        if CMDCODE.REQUEST != cmdcode:
            raise ClientError("wrong cmdcode:[{}]".format(cmdcode))
        if class_name != BoltRequest.class_name:
            raise ClientError("wrong class_name:[{}]".format(class_name))

    async def _handler_connection(self, reader, writer):
"""))
add('srv-close-helper', 'C11 C10', (AL, """                logger.warning("Connection closed by remote: {}".format(e))
                try:
                    await writer.drain()  # clean the buffer, avoid backpressure
                    writer.write(FailResponse.response_to(header['request_id'],
                                                          RESPSTATUS.CONNECTION_CLOSED).to_stream())
                except:
                    pass
                try:
                    writer.write_eof()
                    await writer.drain()
                except:
                    pass
                writer.close()
                break
""", """                logger.warning("Connection closed by remote: {}".format(e))
                await self._say_goodbye(writer, header, RESPSTATUS.CONNECTION_CLOSED)
                return
"""), (AL, """                logger.error(traceback.format_exc())
                try:
                    await writer.drain()  # clean the buffer, avoid backpressure
                    writer.write(FailResponse.response_to(header['request_id'], RESPSTATUS.UNKNOWN).to_stream())
                except:
                    pass
                try:
                    writer.write_eof()
                    await writer.drain()
                except:
                    pass
                writer.close()
                break
""", """                logger.error(traceback.format_exc())
                await self._say_goodbye(writer, header, RESPSTATUS.UNKNOWN)
                return
"""), (AL, """    async def _handler_connection(self, reader, writer):
""", """    @staticmethod
    async def _say_goodbye(writer, header, status):
        try:
            await writer.drain()  # clean the buffer, avoid backpressure
            writer.write(FailResponse.response_to(header['request_id'], status).to_stream())
        except:
            pass
        try:
            writer.write_eof()
            await writer.drain()
        except:
            pass
        writer.close()

    async def _handler_connection(self, reader, writer):
"""))
add('srv-registry', 'C12 C10', (AL, """            if service_cls_args or service_cls_kwargs:
                def service_cls_wrapper(spanctx):
                    return service_cls(spanctx, *service_cls_args, **service_cls_kwargs)
            else:
                service_cls_wrapper = service_cls
            self.interface_mapping[interface] = service_cls_wrapper
""", """            self.interface_mapping[interface] = (
                (lambda spanctx: service_cls(spanctx, *service_cls_args, **service_cls_kwargs))
                if service_cls_args or service_cls_kwargs else service_cls)
"""))
add('srv-registry-partial', 'C12', (SL, """        if service_cls_args or service_cls_kwargs:
            def service_cls_wrapper(spanctx):
                return service_cls(spanctx, *service_cls_args, **service_cls_kwargs)
        else:
            service_cls_wrapper = service_cls
        self.interface_mapping[interface] = service_cls_wrapper
""", """        def service_cls_wrapper(spanctx):
            return service_cls(spanctx, *service_cls_args, **service_cls_kwargs)
        self.interface_mapping.update({interface: service_cls_wrapper})
"""))
add('srv-lookup', 'C12 C10', (AL, """        try:
            ServiceCls = self.interface_mapping[service]
        except KeyError as e:
            logger.error("Service not found in interface registry: [{}]".format(service))
            raise NoProcessorError("Service not found in interface registry: [{}]".format(service)) from e
""", """        ServiceCls = self.interface_mapping.get(service)
        if ServiceCls is None:
            logger.error("Service not found in interface registry: [{}]".format(service))
            raise NoProcessorError("Service not found in interface registry: [{}]".format(service))
"""))
add('sock-lookup', 'C12 C14', (SL, """        try:
            func = getattr(svc_obj, method)
        except AttributeError as e:
            logger.error("No such method[{}]".format(method))
            raise NoProcessorError("No such method[{}]".format(method))

        return func(body)
""", """        if not hasattr(svc_obj, method):
            logger.error("No such method[{}]".format(method))
            raise NoProcessorError("No such method[{}]".format(method))

        return getattr(svc_obj, method)(body)
"""))
add('sock-reply', 'C14', (SL, """    def handle(self):
        try:
""", """    def _reply(self, msg):
        self.wfile.write(msg.to_stream())
        self.wfile.flush()

    def handle(self):
        try:
"""), (SL, """                self.wfile.write(HeartbeatResponse.response_to(request_id).to_stream())
                self.wfile.flush()
                return
""", """                self._reply(HeartbeatResponse.response_to(request_id))
                return
"""), (SL, """            self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
            self.wfile.flush()
""", """            self._reply(BoltResponse.response_to(ret, request_id=request_id))
"""))
add('sock-readexactly', 'C14', (SL, """        bs = b''
        while len(bs) < bs_cnt:
            part = self.rfile.read(bs_cnt - len(bs))
            if not part:
                raise EOFError("connection closed by remote")
            bs += part
        return bs
""", """        parts = []
        missing = bs_cnt
        while missing > 0:
            part = self.rfile.read(missing)
            if len(part) == 0:
                raise EOFError("connection closed by remote")
            parts.append(part)
            missing -= len(part)
        return b''.join(parts)
"""))
add('pool-get', 'C15', (CP, """        return conn or self._new_conn()
""", """        if conn is None:
            conn = self._new_conn()
        return conn
"""))
add('pool-put', 'C15', (CP, """            with self._lock:
                self.num_connections -= 1

        # Connection never""", """            self._uncount()

        # Connection never"""), (CP, """            conn = None
            with self._lock:
                self.num_connections -= 1
""", """            conn = None
            self._uncount()
"""), (CP, """    def put_conn(self, conn):
""", """    def _uncount(self):
        self._lock.acquire()
        try:
            self.num_connections = self.num_connections - 1
        finally:
            self._lock.release()

    def put_conn(self, conn):
"""))
add('pool-close', 'C15 C17', (CP, """        try:
            while True:
                conn = old_pool.get(block=False)
                if conn:
                    conn.close()

        except queue.Empty:
            pass  # Done.
""", """        while True:
            try:
                conn = old_pool.get_nowait()
            except queue.Empty:
                break
            if conn:
                conn.close()
"""))
add('pm-get', 'C17', (PM, """            pool = self.pools.get(pool_key)
            if pool:
                return pool

            # Make a fresh ConnectionPool of the desired type
            pool = self._new_pool(pool_key)
            self.pools[pool_key] = pool

        return pool
""", """            try:
                return self.pools[pool_key]
            except KeyError:
                pool = self.pools[pool_key] = self._new_pool(pool_key)
                return pool
"""))
add('pm-scope', 'C17', (PM, """        try:
            pool = self.connection_pool_from_pool_key(pool_key)
            conn = pool.get_conn()
            yield conn
        except:
            raise
        finally:
            try:
                pool.put_conn(conn)
            except (NameError, AttributeError):
                pass
""", """        pool = self.connection_pool_from_pool_key(pool_key)
        conn = pool.get_conn()
        try:
            yield conn
        finally:
            pool.put_conn(conn)
"""))
add('ru-get', 'C16 C17', (RU, """            item = self._container.pop(key)
            self._container[key] = item
""", """            item = self._container[key]
            self._container.move_to_end(key)
"""))
add('ru-clear', 'C16', (RU, """            # Copy pointers to all values, then wipe the mapping
            values = list(self._container.values())
            self._container.clear()
""", """            old, self._container = self._container, self.ContainerCls()
        values = list(old.values())
"""))
add('co-recv', 'C18', (CO, """        read = 0
        buf = BytesIO()
        while read < size:
            wait_for_read(self.sock)
            bs = self.sock.recv(size - read)
            if not bs:
                raise EOFError("connection closed by peer")
            buf.write(bs)
            read += len(bs)
        return buf.getvalue()
""", """        buf = b''
        while True:
            missing = size - len(buf)
            if missing <= 0:
                return buf
            wait_for_read(self.sock)
            bs = self.sock.recv(missing)
            if bs == b'':
                raise EOFError("connection closed by peer")
            buf = buf + bs
"""))
add('co-sendall', 'C18 C13', (CO, """        view = memoryview(data)
        while len(view) > 0:
            remaining = None if deadline is None else max(0, deadline - time.time())
            if not wait_for_write(self.sock, remaining):
                raise socket.timeout("send timed out")
            view = view[self.sock.send(view, flags):]
""", """        sent, total = 0, len(data)
        while sent < total:
            remaining = None if deadline is None else max(0, deadline - time.time())
            if not wait_for_write(self.sock, remaining):
                raise socket.timeout("send timed out")
            sent += self.sock.send(data[sent:], flags)
"""))
add('wait-loop', 'C18', (WA, """        return [key[0].fileobj for key in
                selector.select(timeout) if key[1] & events]
""", """        ready = []
        for key, mask in selector.select(timeout):
            if mask & events:
                ready.append(key.fileobj)
        return ready
"""))
add('sh-encode', 'C03 C01 C02', (SH, """            return b''.join(_str_to_bytes_with_len(k) + _str_to_bytes_with_len(v) for k, v in self.items())
""", """            out = b''
            for k, v in self.items():
                out += _str_to_bytes_with_len(k)
                out += _str_to_bytes_with_len(v)
            return out
"""))
add('sh-decode', 'C03 C04', (SH, """    ret = []
    while b:
        if 4 > len(b):  # pragma: no cover
            raise DecodeError('decoding bytes to int failed, not enough length')
        l = _bytes2int_be(b[:4])  # length
        if l == -1:
            # -1(\\xff\\xff\\xff\\xff) is null in java, see issue #2
            # set l = 0 will take this 4 bytes as b"", and continue to parse rest bytes.
            l = 0
        if l < 0:
            # Something went wrong
            raise DecodeError('decoding bytes to str failed, negative content length')
        n = 4 + l  # next point
        if n > len(b):  # pragma: no cover
            # incomplete bytes
            raise DecodeError('decoding bytes to str failed, not enough length')
        try:
            ret.append(b[4: n].decode(coding))
        except UnicodeDecodeError as e:
            raise DecodeError(e)
        b = b[n:]

    return ret
""", """    ret = []
    pos, end = 0, len(b)
    while pos < end:
        if end - pos < 4:
            raise DecodeError('decoding bytes to int failed, not enough length')
        l = _bytes2int_be(b[pos:pos + 4])
        pos += 4
        if l == -1:
            l = 0
        elif l < 0:
            raise DecodeError('decoding bytes to str failed, negative content length')
        if l > end - pos:
            raise DecodeError('decoding bytes to str failed, not enough length')
        try:
            s = b[pos:pos + l].decode(coding)
        except UnicodeDecodeError as e:
            raise DecodeError(e)
        ret.append(s)
        pos += l
    return ret
"""))
add('sh-decode-helper', 'C03 C04', (SH, """        l = _bytes2int_be(b[:4])  # length
        if l == -1:
            # -1(\\xff\\xff\\xff\\xff) is null in java, see issue #2
            # set l = 0 will take this 4 bytes as b"", and continue to parse rest bytes.
            l = 0
        if l < 0:
            # Something went wrong
            raise DecodeError('decoding bytes to str failed, negative content length')
""", """        l = _text_length(b[:4])
"""), (SH, """def _bytes_to_str(b, coding='utf-8'):
""", """def _text_length(b):
    l = _bytes2int_be(b)
    if l < -1:
        raise DecodeError('decoding bytes to str failed, negative content length')
    return max(l, 0)


def _bytes_to_str(b, coding='utf-8'):
"""))
add('sh-fromdict', 'C03 C04', (SH, """        ss = _bytes_to_str(b)
        keys = ss[::2]
        vals = ss[1::2]
        if len(keys) != len(vals):  # pragma: no cover
            raise DecodeError('number of keys and values not match')
        return cls(zip(keys, vals))
""", """        ss = _bytes_to_str(b)
        if len(ss) % 2:
            raise DecodeError('number of keys and values not match')
        return cls(dict(zip(ss[::2], ss[1::2])))
"""))
add('sh-build', 'C20', (SH, """        rpc_trace_context_expand = RpcTraceContext(**spanctx.baggage).expand()

        kwargs = dict()
        kwargs.update(**sofa_headers_extra)
        kwargs.update(**rpc_trace_context_expand)

        header = cls(sofa_head""", """        kwargs = dict(sofa_headers_extra)
        kwargs.update(RpcTraceContext(**spanctx.baggage).expand())

        header = cls(sofa_head"""))
add('pkg-pack', 'C01 C02', (RQ, """            bodyfmt = "%ds%ds%ds" % (self.class_len, self.header_len, self.content_len)
            return struct.pack(self.fmt + bodyfmt, self.proto, self.ptype, self.cmdcode,
                               self.ver2, self.request_id, self.codec, self.timeout,
                               self.class_len, self.header_len, self.content_len,
                               self.class_name, self._header_bytes, self.content)
""", """            fixed = struct.pack(self.fmt, *[getattr(self, name) for name in self.bolt_headers])
            return fixed + self.class_name + self._header_bytes + self.content
"""))
add('pkg-decode', 'C01 C04', (PB, """            bodyfmt = "%ds%ds%ds" % (bolt_headers['class_len'], bolt_headers['header_len'], bolt_headers['content_len'])
            class_name, header, content = struct.unpack(bodyfmt, stream)

            return cls""", """            a = bolt_headers['class_len']
            b = a + bolt_headers['header_len']
            if len(stream) != b + bolt_headers['content_len']:
                raise ValueError("wrong length")
            header, content = stream[a:b], stream[b:]

            return cls"""))
add('mesh-post', 'C22', (MC, """        if r.status_code != 200:
            raise ConnectionError("Connect to service mesh failed: {}".format(r.status_code))
        result = r.json()
        if result.get('success') is not True:
            raise ConnectionError("Connect to service mesh failed: {}".format(result.get('errorMessage',
                                                                                         "MISSING ERROR MESSAGE")))
        return result
""", """        if r.status_code == 200:
            result = r.json()
            if result.get('success') is True:
                return result
            reason = result.get('errorMessage', "MISSING ERROR MESSAGE")
        else:
            reason = r.status_code
        raise ConnectionError("Connect to service mesh failed: {}".format(reason))
"""))
add('mesh-startup', 'C22', (MC, """            if not self._started:
                self._post("configs/application", attr.asdict(self.appinfo, filter=lambda a, v: v))
                self._started = True
            return self._started
""", """            if self._started:
                return True
            payload = {k: v for k, v in attr.asdict(self.appinfo).items() if v}
            self._post("configs/application", payload)
            self._started = True
            return True
"""))
add('bl-publish', 'C24', (BL, """        if self._mesh_client:
            for service_name in self.handler.interface_mapping:
                self._mesh_client.publish(PublishServiceRequest(
                    port=str(self.address[1]),
                    serviceName=service_name,
                    providerMetaInfo=ProviderMetaInfo(protocol="1",
                                                      version="4.0",
                                                      serializeType="protobuf",
                                                      appName=self.app_name)))
""", """        if not self._mesh_client:
            return
        port = str(self.address[1])
        meta = ProviderMetaInfo(protocol="1", version="4.0", serializeType="protobuf", appName=self.app_name)
        for service_name in list(self.handler.interface_mapping.keys()):
            req = PublishServiceRequest(serviceName=service_name, providerMetaInfo=meta, port=port)
            self._mesh_client.publish(req)
"""))
add('tr-start', 'C21 C20', (TR, """        if isinstance(child_of, SpanContext):
            ref = opentracing.child_of(child_of)
        elif isinstance(child_of, MySpan):
            ref = opentracing.child_of(child_of.context)
        elif references:
            ref = references if isinstance(references, opentracing.Reference) else references[0]
        else:
            ref = None
""", """        ref = self._reference(child_of, references)
"""), (TR, """    def extract(self, format, carrier):
""", """    @staticmethod
    def _reference(child_of, references):
        if isinstance(child_of, MySpan):
            child_of = child_of.context
        if isinstance(child_of, SpanContext):
            return opentracing.child_of(child_of)
        if not references:
            return None
        if isinstance(references, opentracing.Reference):
            return references
        return references[0]

    def extract(self, format, carrier):
"""))
add('tr-extract', 'C20', (TR, """            d = {k.split('.', 1)[1]: carrier[k] for k in carrier if k.startswith(self._prefix)}
            return self.spanContextCls(None, **d)
""", """            d = dict()
            for k in carrier:
                if k.startswith(self._prefix):
                    d[k[len(self._prefix):]] = carrier[k]
            return self.spanContextCls(None, **d)
"""))
add('tr-inject', 'C20', (TR, """        for k, v in span_context.baggage.items():
            carrier[self._prefix + k] = str(v)
        return carrier
""", """        carrier.update({self._prefix + k: str(v) for k, v in span_context.baggage.items()})
        return carrier
"""))
add('sc-init', 'C20 C21', (SC, """            origin_span_baggage = reference.referenced_context.baggage.copy()
            kwargs['sofaRpcId'] = origin_span_baggage.pop('sofaRpcId').new_by_reference_type(reference.type)
            kwargs.update(origin_span_baggage)
""", """            parent = reference.referenced_context.baggage
            kwargs.update(parent)
            kwargs['sofaRpcId'] = parent['sofaRpcId'].new_by_reference_type(reference.type)
"""))
add('rt-expand', 'C20', (RT, """        return {self.prefix + k: str(v) for k, v in self._items.items()}
""", """        out = {}
        for k, v in self._items.items():
            out[self.prefix + k] = str(v)
        return out
"""))
add('ri-eq', 'C19', (RI, """        if len(self.rpcids) != len(other.rpcids):
            return False
        return all(map(lambda x: x[0] == x[1], zip(self.rpcids, other.rpcids)))
""", """        return self.rpcids == other.rpcids
"""))
add('ri-init', 'C19', (RI, """            def _innertrans(s):
                try:
                    return int(s)
                except ValueError:
                    return s

            self.rpcids = list(map(_innertrans, rpcids))
""", """            self.rpcids = []
            for s in rpcids:
                try:
                    s = int(s)
                except ValueError:
                    pass
                self.rpcids.append(s)
"""))
add('ti-fmt', 'C21', (TI, """            self._trace_id = "{:0>8x}{:}{}{}".format(_ip, _ts, _sq, _pid)
""", """            self._trace_id = "%08x%d%d%d" % (_ip, _ts, _sq, _pid)
"""))
add('rid-gen', 'C05', (RID, """RequestId = cycle(chain(range(_start, _max + 1), range(0, _start)))
""", """_size = _max + 1
RequestId = ((_start + i) % _size for i in count())
"""), (RID, "from itertools import cycle, chain\n", "from itertools import count\n"))
add('fr-kw', 'C02 C10', (FR, """        return cls(empty_header, b'', respstatus=status_code,
                   ptype=PTYPE.RESPONSE, cmdcode=CMDCODE.RESPONSE, request_id=request_id)""", """        fields = dict(ptype=PTYPE.RESPONSE, cmdcode=CMDCODE.RESPONSE, request_id=request_id)
        return cls(empty_header, b'', respstatus=status_code, **fields)"""))

# second batch: other idioms
add('sh-encode-tobytes', 'C03 C01 C02', (SH, """        try:
            return b''.join(_str_to_bytes_with_len(k) + _str_to_bytes_with_len(v) for k, v in self.items())
        except AttributeError as e:  # pragma: no cover
            raise EncodeError(e)
""", """        out = bytearray()
        for pair in self.items():
            for text in pair:
                try:
                    raw = text.encode('utf-8')
                except AttributeError as e:
                    raise EncodeError(e)
                out += len(raw).to_bytes(4, 'big', signed=True)
                out += raw
        return bytes(out)
"""))
add('sh-decode-pos', 'C03 C04', (SH, """    while b:
        if 4 > len(b):  # pragma: no cover
            raise DecodeError('decoding bytes to int failed, not enough length')
        l = _bytes2int_be(b[:4])  # length
        if l == -1:
            # -1(\\xff\\xff\\xff\\xff) is null in java, see issue #2
            # set l = 0 will take this 4 bytes as b"", and continue to parse rest bytes.
            l = 0
        if l < 0:
            # Something went wrong
            raise DecodeError('decoding bytes to str failed, negative content length')
        n = 4 + l  # next point
        if n > len(b):  # pragma: no cover
            # incomplete bytes
            raise DecodeError('decoding bytes to str failed, not enough length')
        try:
            ret.append(b[4: n].decode(coding))
        except UnicodeDecodeError as e:
            raise DecodeError(e)
        b = b[n:]
""", """    pos, end = 0, len(b)
    while pos < end:
        start = pos + 4
        if start > end:
            raise DecodeError('decoding bytes to int failed, not enough length')
        l = _bytes2int_be(b[pos:start])
        if l < -1:
            raise DecodeError('decoding bytes to str failed, negative content length')
        pos = start + max(l, 0)
        if pos > end:
            raise DecodeError('decoding bytes to str failed, not enough length')
        try:
            text = b[start:pos].decode(coding)
        except UnicodeDecodeError as e:
            raise DecodeError(e)
        ret.append(text)
"""))
add('sh-frombytes-pairs', 'C03 C04', (SH, """        keys = ss[::2]
        vals = ss[1::2]
        if len(keys) != len(vals):  # pragma: no cover
            raise DecodeError('number of keys and values not match')
        return cls(zip(keys, vals))
""", """        if len(ss) % 2:
            raise DecodeError('number of keys and values not match')
        it = iter(ss)
        return cls(zip(it, it))
"""))
add('pool-acquire', 'C15', (CP, """        with self._lock:
            if self.num_connections >= self.max_connections:
                raise EmptyPoolError(self,
                                     "Pool reached maximum size and no more "
                                     "connections are allowed.")

            self.num_connections += 1
""", """        self._lock.acquire()
        try:
            full = self.num_connections >= self.max_connections
            if not full:
                self.num_connections += 1
        finally:
            self._lock.release()
        if full:
            raise EmptyPoolError(self,
                                 "Pool reached maximum size and no more "
                                 "connections are allowed.")
"""))
add('pool-uncount', 'C15', (CP, """            with self._lock:
                self.num_connections -= 1
            raise
        return conn
""", """            self._uncount()
            raise
        return conn

    def _uncount(self, n=1):
        with self._lock:
            self.num_connections = self.num_connections - n
"""), (CP, """            conn = None
            with self._lock:
                self.num_connections -= 1

        return conn or self._new_conn()
""", """            self._uncount()
            return self._new_conn()

        return conn if conn is not None else self._new_conn()
"""))
add('pool-put-nowait', 'C15', (CP, """                self.pool.put(conn, block=False)
            return  # Everything""", """                self.pool.put_nowait(conn)
            return  # Everything"""), (CP, """        try:
            while True:
                conn = old_pool.get(block=False)
                if conn:
                    conn.close()

        except queue.Empty:
            pass  # Done.""", """        while True:
            try:
                conn = old_pool.get_nowait()
            except queue.Empty:
                break
            if conn is not None:
                conn.close()"""))
add('pm-setdefault', 'C17', (PM, """            pool = self.pools.get(pool_key)
            if pool:
                return pool

            # Make a fresh ConnectionPool of the desired type
            pool = self._new_pool(pool_key)
            self.pools[pool_key] = pool

        return pool
""", """            try:
                return self.pools[pool_key]
            except KeyError:
                self.pools[pool_key] = pool = self._new_pool(pool_key)
                return pool
"""))
add('pm-scope-class', 'C17', (PM, """        try:
            pool = self.connection_pool_from_pool_key(pool_key)
            conn = pool.get_conn()
            yield conn
        except:
            raise
        finally:
            try:
                pool.put_conn(conn)
            except (NameError, AttributeError):
                pass
""", """        pool = self.connection_pool_from_pool_key(pool_key)
        conn = pool.get_conn()
        try:
            yield conn
        except BaseException:
            pool.put_conn(conn)
            raise
        else:
            pool.put_conn(conn)
"""))
add('ru-move', 'C16 C17', (RU, """            item = self._container.pop(key)
            self._container[key] = item
            return item
""", """            self._container.move_to_end(key)
            return self._container[key]
"""))
add('ru-set', 'C16', (RU, """        evicted_value = _Null
        with self.lock:
            # Possibly evict the existing value of 'key'
            evicted_value = self._container.pop(key, _Null)
            self._container[key] = value
            if evicted_value is value:
                # stored again, still held
                evicted_value = _Null

            # If we didn't evict an existing value, we might have to evict the
            # least recently used item from the beginning of the container.
            if len(self._container) > self._maxsize:
                _key, evicted_value = self._container.popitem(last=False)

        if self.dispose_func and evicted_value is not _Null:
            self.dispose_func(evicted_value)
""", """        gone = []
        with self.lock:
            if key in self._container:
                old = self._container[key]
                del self._container[key]
                if old is not value:
                    gone.append(old)
            self._container[key] = value
            if len(self._container) > self._maxsize:
                gone.append(self._container.popitem(last=False)[1])
        if self.dispose_func:
            for v in gone:
                self.dispose_func(v)
"""))
add('ru-clear-swap', 'C16', (RU, """            values = list(self._container.values())
            self._container.clear()
""", """            old, self._container = self._container, self.ContainerCls()
        values = list(old.values())
"""))
add('co-sendall-slice', 'C18', (CO, """        view = memoryview(data)
        while len(view) > 0:
            remaining = None if deadline is None else max(0, deadline - time.time())
            if not wait_for_write(self.sock, remaining):
                raise socket.timeout("send timed out")
            view = view[self.sock.send(view, flags):]
""", """        done, total = 0, len(data)
        while done < total:
            remaining = None if deadline is None else max(0, deadline - time.time())
            if not wait_for_write(self.sock, remaining):
                raise socket.timeout("send timed out")
            done += self.sock.send(data[done:], flags)
"""))
add('co-recv-bytearray', 'C18', (CO, """        read = 0
        buf = BytesIO()
        while read < size:
            wait_for_read(self.sock)
            bs = self.sock.recv(size - read)
            if not bs:
                raise EOFError("connection closed by peer")
            buf.write(bs)
            read += len(bs)
        return buf.getvalue()
""", """        parts = []
        while size > 0:
            wait_for_read(self.sock)
            bs = self.sock.recv(size)
            if bs == b'':
                raise EOFError("connection closed by peer")
            parts.append(bs)
            size -= len(bs)
        return b''.join(parts)
"""))
add('rid-gen2', 'C05', (RID, """RequestId = cycle(chain(range(_start, _max + 1), range(0, _start)))
""", """

def _ids(n):
    while True:
        yield n
        n = 0 if n == _max else n + 1


RequestId = _ids(_start)
"""))
add('rid-mod', 'C05', (RID, """RequestId = cycle(chain(range(_start, _max + 1), range(0, _start)))
""", """RequestId = map(lambda i: i & _max, count(_start))
"""), (RID, "from itertools import cycle, chain", "from itertools import count"))
add('cl-bytearray', 'C13', (CL, "            resp_bytes = b''\n", "            resp_bytes = bytearray()\n"), (CL, "                    resp_bytes += bs\n", "                    resp_bytes.extend(bs)\n"),
    (CL, "header = pkg.bolt_header_from_stream(resp_bytes)\n", "header = pkg.bolt_header_from_stream(bytes(resp_bytes))\n"),
    (CL, "pkg.bolt_content_from_stream(resp_bytes[pkg.bolt_header_size():], header)", "pkg.bolt_content_from_stream(bytes(resp_bytes[pkg.bolt_header_size():]), header)"))
add('cl-while-true', 'C13', (CL, """            while len(resp_bytes) < total_size:
                remaining = deadline - time.time()
                ready = remaining > 0 and sel.select(timeout=remaining)
                if not ready:
                    # timeout
                    c.close()
                    raise TimeoutError('Sync call timeout')
""", """            while True:
                missing = total_size - len(resp_bytes)
                if missing <= 0:
                    break
                remaining = deadline - time.time()
                ready = sel.select(timeout=remaining) if remaining > 0 else []
                if len(ready) == 0:
                    c.close()
                    raise TimeoutError('Sync call timeout')
"""), (CL, "recv(total_size - len(resp_bytes))", "recv(missing)"))
add('cl-close-finally', 'C13', (CL, """        with DefaultSelector() as sel:
            sel.register(c, EVENT_READ)
""", """        sel = DefaultSelector()
        with sel:
            sel.register(c, EVENT_READ)
"""), (CL, """                    c.close()
                    raise TimeoutError('Sync call timeout')
""", """                    self._give_up(c, TimeoutError('Sync call timeout'))
"""), (CL, """                        c.close()
                        raise ServerError("Connection closed by server")
""", """                        self._give_up(c, ServerError("Connection closed by server"))
"""), (CL, """    def invoke_async(self, interface""", """    def _give_up(self, c, error):
        c.close()
        raise error

    def invoke_async(self, interface"""))
add('tr-extract-loop', 'C20', (TR, """            d = {k.split('.', 1)[1]: carrier[k] for k in carrier if k.startswith(self._prefix)}
            return self.spanContextCls(None, **d)
        except:
            raise opentracing.InvalidCarrierException()
""", """            d = {}
            for k, v in carrier.items():
                if k.startswith(self._prefix):
                    d[k[len(self._prefix):]] = v
            return self.spanContextCls(None, **d)
        except Exception:
            raise opentracing.InvalidCarrierException()
"""))
add('tr-inject-update', 'C20', (TR, """        for k, v in span_context.baggage.items():
            carrier[self._prefix + k] = str(v)
        return carrier""", """        items = {'%s%s' % (self._prefix, k): str(v) for k, v in span_context.baggage.items()}
        carrier.update(items)
        return carrier"""))
add('rt-expand-f', 'C20', (RT, "        return {self.prefix + k: str(v) for k, v in self._items.items()}", "        return dict((f'{self.prefix}{k}', f'{v}') for k, v in self._items.items())"))
add('ri-loop', 'C19', (RI, """            def _innertrans(s):
                try:
                    return int(s)
                except ValueError:
                    return s

            self.rpcids = list(map(_innertrans, rpcids))
""", """            self.rpcids = []
            for s in rpcids:
                try:
                    s = int(s)
                except ValueError:
                    pass
                self.rpcids.append(s)
"""))
add('ri-eq-list', 'C19', (RI, """        if len(self.rpcids) != len(other.rpcids):
            return False
        return all(map(lambda x: x[0] == x[1], zip(self.rpcids, other.rpcids)))""", """        return self.rpcids == other.rpcids"""))
add('ri-eq-loop', 'C19', (RI, """        return all(map(lambda x: x[0] == x[1], zip(self.rpcids, other.rpcids)))""", """        for x, y in zip(self.rpcids, other.rpcids):
            if x != y:
                return False
        return True"""))
add('ri-child', 'C19 C20', (RI, """        new_ids = list(ids)
        new_ids.append(extend)
        return cls(*new_ids)""", """        return cls(*ids, extend)"""), (RI, """        self._child_count += 1
        obj = self.extend_id(self.rpcids, self._child_count)
""", """        n = self._child_count + 1
        obj = self.extend_id(self.rpcids, n)
        self._child_count = n
"""))
add('sock-read-left', 'C14', (SL, """        bs = b''
        while len(bs) < bs_cnt:
            part = self.rfile.read(bs_cnt - len(bs))
            if not part:
                raise EOFError("connection closed by remote")
            bs += part
        return bs
""", """        parts, left = [], bs_cnt
        while left:
            part = self.rfile.read(left)
            if not part:
                raise EOFError("connection closed by remote")
            parts.append(part)
            left -= len(part)
        return b''.join(parts)
"""))
add('sock-oneway', 'C14', (SL, """            if call_type == PTYPE.ONEWAY:
                return
            self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
            self.wfile.flush()
""", """            if call_type != PTYPE.ONEWAY:
                reply = BoltResponse.response_to(ret, request_id=request_id)
                self.wfile.write(reply.to_stream())
                self.wfile.flush()
"""))

# third batch: the parts not edited yet
add('pb-unpack-from', 'C01 C02 C04', (PB, "            values = struct.unpack(cls.fmt, stream[:cls.bolt_header_size()])\n            return dict(zip(cls.bolt_headers, values))\n",
    "            packer = struct.Struct(cls.fmt)\n            return {name: value for name, value in zip(cls.bolt_headers, packer.unpack(stream[:packer.size]))}\n"))
add('pb-from-stream', 'C01 C02 C04', (PB, "        bh = cls.bolt_header_from_stream(stream)\n        return cls.bolt_content_from_stream(stream[cls.bolt_header_size():], bh)\n",
    "        size = cls.bolt_header_size()\n        head, body = stream[:size], stream[size:]\n        return cls.bolt_content_from_stream(body, cls.bolt_header_from_stream(head))\n"))
add('pb-validate-loop', 'C01 C02', (PB, """        _check(self.proto, PROTO)
        _check(self.ptype, PTYPE)
        _check(self.cmdcode, CMDCODE)
        _check(self.ver2, VER2)
        _check(self.request_id, int)
        _check(self.codec, CODEC)
        _check(self.class_name, bytes)
        _check(self.header, SofaHeader)
        _check(self.content, bytes)
""", """        for name, need_type in (("proto", PROTO), ("ptype", PTYPE), ("cmdcode", CMDCODE), ("ver2", VER2), ("request_id", int), ("codec", CODEC),
                                ("class_name", bytes), ("header", SofaHeader), ("content", bytes)):
            _check(getattr(self, name), need_type)
"""))
add('rq-concat', 'C01', (RQ, """            bodyfmt = "%ds%ds%ds" % (self.class_len, self.header_len, self.content_len)
            return struct.pack(self.fmt + bodyfmt, self.proto, self.ptype, self.cmdcode,
                               self.ver2, self.request_id, self.codec, self.timeout,
                               self.class_len, self.header_len, self.content_len,
                               self.class_name, self._header_bytes, self.content)
""", """            fixed = struct.pack(self.fmt, self.proto, self.ptype, self.cmdcode,
                                self.ver2, self.request_id, self.codec, self.timeout,
                                self.class_len, self.header_len, self.content_len)
            return fixed + self.class_name + self._header_bytes + self.content
"""))
add('rs-fields', 'C02', (RS, """            bodyfmt = "%ds%ds%ds" % (self.class_len, self.header_len, self.content_len)
            return struct.pack(self.fmt + bodyfmt, self.proto, self.ptype, self.cmdcode,
                               self.ver2, self.request_id, self.codec, self.respstatus,
                               self.class_len, self.header_len, self.content_len,
                               self.class_name, self._header_bytes, self.content)
""", """            fixed = struct.pack(self.fmt, *[getattr(self, name) for name in self.bolt_headers])
            return b"".join((fixed, self.class_name, self._header_bytes, self.content))
"""))
add('rq-new', 'C01 C05 C07', (RQ, """        return cls(header, content, ptype=ptype, cmdcode=CMDCODE.REQUEST,
                   request_id=next(RequestId), timeout=int(timeout_ms or -1))
""", """        timeout = int(timeout_ms) if timeout_ms else -1
        request_id = next(RequestId)
        return cls(header, content, request_id=request_id, ptype=ptype, cmdcode=CMDCODE.REQUEST, timeout=timeout)
"""))
add('aio-timer', 'C09', (AIO, """        while True:
            await asyncio.sleep(interval)
            asyncio.ensure_future(self._heartbeat_once(address, interval))
""", """        loop = asyncio.get_event_loop()
        while True:
            await asyncio.sleep(interval)
            loop.create_task(self._heartbeat_once(address, interval))
"""))
add('aio-cb', 'C07', (AIO, """            try:
                ret = fut.result(timeout)
            except (CancelledError, TimeoutError):
                logger.error("Failed to get result")
                return
            return callback(ret.content)
""", """            try:
                content = fut.result(timeout).content
            except (CancelledError, TimeoutError):
                logger.error("Failed to get result")
            else:
                return callback(content)
"""))
add('aio-hb-checks', 'C09', (AIO, """        if resp.cmdcode != CMDCODE.HEARTBEAT:
            logger.error("wrong cmdcode ({}) in heartbeat response on request({}).".format(resp.cmdcode,
                                                                                           resp.request_id))
            return False
        if resp.respstatus != RESPSTATUS.SUCCESS:
            logger.error("heartbeat response status ({}) on request({}).".format(resp.respstatus, resp.request_id))
            return False
        return True
""", """        if (resp.cmdcode, resp.respstatus) != (CMDCODE.HEARTBEAT, RESPSTATUS.SUCCESS):
            logger.error("wrong cmdcode ({}) or status ({}) in heartbeat response on request({}).".format(
                resp.cmdcode, resp.respstatus, resp.request_id))
            return False
        return True
"""))
add('aio-forget', 'C06 C07 C08', (AIO, """            self.request_mapping.pop(request.request_id, None)
            self.response_mapping.pop(request.request_id, None)
        if resp is None:""", """            self._forget(request.request_id)
        if resp is None:"""), (AIO, """    async def _send_request(self, request: BoltRequest, *, address):
""", """    def _forget(self, request_id):
        for mapping in (self.request_mapping, self.response_mapping):
            if request_id in mapping:
                del mapping[request_id]

    async def _send_request(self, request: BoltRequest, *, address):
"""))
add('aio-one-except', 'C06 C07 C08', (AIO, """        except PyboltError:
            logger.error("failed to send request {}".format(request.request_id))
            self.request_mapping.pop(request.request_id, None)
            raise
        except Exception:
            logger.error(traceback.format_exc())
            self.request_mapping.pop(request.request_id, None)
            raise
""", """        except Exception as e:
            if isinstance(e, PyboltError):
                logger.error("failed to send request {}".format(request.request_id))
            else:
                logger.error(traceback.format_exc())
            self.request_mapping.pop(request.request_id, None)
            raise
"""))
add('aio-recv-suppress', 'C06 C07 C08', (AIO, """                with suppress(TypeError, KeyError):
                    # wake up the coro
                    event = self.request_mapping.pop(header['request_id'])
                    event.set()""", """                # wake up the coro
                event = self.request_mapping.pop(header['request_id'], None) if header is not None else None
                if event is not None:
                    event.set()"""))
add('al-eof-helper', 'C11 C10', (AL, """                try:
                    await writer.drain()  # clean the buffer, avoid backpressure
                    writer.write(FailResponse.response_to(header['request_id'], RESPSTATUS.UNKNOWN).to_stream())
                except:
                    pass
                try:
                    writer.write_eof()
                    await writer.drain()
                except:
                    pass
                writer.close()
                break""", """                try:
                    await writer.drain()  # clean the buffer, avoid backpressure
                    writer.write(FailResponse.response_to(header['request_id'], RESPSTATUS.UNKNOWN).to_stream())
                except:
                    pass
                try:
                    writer.write_eof()
                    await writer.drain()
                except:
                    pass
                writer.close()
                return"""))
add('sl-required', 'C14', (SL, """            service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
            if not service:
                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
                self.wfile.flush()
                logger.error("Missing service name in sofa header [{}]".format(sofa_header))
                return
            method = sofa_header.get('sofa_head_method_name')
            if not method:
                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
                self.wfile.flush()
                logger.error("Missing method name in sofa header [{}]".format(sofa_header))
                return
""", """            service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
            method = sofa_header.get('sofa_head_method_name')
            for name, value in (('service', service), ('method', method)):
                if not value:
                    self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
                    self.wfile.flush()
                    logger.error("Missing {} name in sofa header [{}]".format(name, sofa_header))
                    return
"""))
add('cp-close-loop', 'C15 C17', (CP, """        try:
            while True:
                conn = old_pool.get(block=False)
                if conn:
                    conn.close()

        except queue.Empty:
            pass  # Done.
""", """        while True:
            try:
                conn = old_pool.get_nowait()
            except queue.Empty:
                break  # Done.
            if conn:
                conn.close()
"""))
add('cp-new-conn', 'C15', (CP, """        try:
            conn = self.ConnectionCls(self.pool_key)
        except Exception:
            with self._lock:
                self.num_connections -= 1
            raise
        return conn
""", """        created = False
        try:
            conn = self.ConnectionCls(self.pool_key)
            created = True
            return conn
        finally:
            if not created:
                with self._lock:
                    self.num_connections -= 1
"""))
add('cp-init', 'C15', (CP, """        for i in range(initial_connections):
            self.pool.put(self._new_conn())
""", """        remaining = initial_connections
        while remaining > 0:
            self.pool.put(self._new_conn())
            remaining -= 1
"""))
add('ut-dropped', 'C15', (UT, """    try:
        return bool(wait_for_read(sock, timeout=0.0))
    except:
        return True
""", """    try:
        readable = wait_for_read(sock, timeout=0.0)
    except:
        return True
    return len(readable) > 0
"""))
add('ex-fstring', 'C07 C13', ('anthunder/exceptions.py', '''        return cls("ServerError: RESPSTATUS={0.value}, {0.name}".format(code))''', '''        return cls(f"ServerError: RESPSTATUS={code.value}, {code.name}")'''))
add('mc-errmsg', 'C22', (MC, """        result = r.json()
        if result.get('success') is not True:
            raise ConnectionError("Connect to service mesh failed: {}".format(result.get('errorMessage',
                                                                                         "MISSING ERROR MESSAGE")))
        return result""", """        result = r.json()
        if result.get('success') is True:
            return result
        reason = result.get('errorMessage', "MISSING ERROR MESSAGE")
        raise ConnectionError("Connect to service mesh failed: {}".format(reason))"""))
add('bl-request', 'C24', (BL, """        if self._mesh_client:
            for service_name in self.handler.interface_mapping:
                self._mesh_client.publish(PublishServiceRequest(
                    port=str(self.address[1]),
                    serviceName=service_name,
                    providerMetaInfo=ProviderMetaInfo(protocol="1",
                                                      version="4.0",
                                                      serializeType="protobuf",
                                                      appName=self.app_name)))
""", """        if not self._mesh_client:
            return
        port = str(self.address[1])
        meta = ProviderMetaInfo(protocol="1", version="4.0", serializeType="protobuf", appName=self.app_name)
        for service_name in list(self.handler.interface_mapping):
            self._mesh_client.publish(PublishServiceRequest(port=port, serviceName=service_name, providerMetaInfo=meta))
"""))
add('bc-unsub', 'C23', (BC, """            logger.info("Unsubscribe interface ({}) through mesh".format(inf))
            try:
                self._mesh_client.unsubscribe(inf)
                SERVICE_MAP.pop(inf)
            except Exception as e:
                logger.error(e)
""", """            logger.info("Unsubscribe interface ({}) through mesh".format(inf))
            try:
                self._mesh_client.unsubscribe(inf)
            except Exception as e:
                logger.error(e)
            else:
                SERVICE_MAP.pop(inf, None)
"""))
add('ri-new', 'C19 C20', (RI, """        self._child_count += 1
        obj = self.extend_id(self.rpcids, self._child_count)
        obj._parent = self  # attach a link to parent rpcId
        return obj
""", """        number = self._child_count + 1
        child = self.extend_id(self.rpcids, number)
        child._parent = self  # attach a link to parent rpcId
        self._child_count = number
        return child
"""))
add('ri-follow', 'C19 C20', (RI, """        if self._parent:
            # a follows up span is a sibling span, means it is a child span of parent
            return self._parent._new_child_of()
        return self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
""", """        parent = self._parent
        if parent is None:
            *prefix, last = self.rpcids
            return self.extend_id(prefix, last + 1)
        # a follows up span is a sibling span, means it is a child span of parent
        return parent._new_child_of()
"""))
add('ri-kinds', 'C19 C20', (RI, "        return getattr(self, '_new_' + ref_type)()\n", """        method = getattr(self, '_new_{}'.format(ref_type))
        return method()
"""))
add('tr-ref', 'C21 C20', (TR, """        if isinstance(child_of, SpanContext):
            ref = opentracing.child_of(child_of)
        elif isinstance(child_of, MySpan):
            ref = opentracing.child_of(child_of.context)
        elif references:
            ref = references if isinstance(references, opentracing.Reference) else references[0]
        else:
            ref = None

        span = self.spanCls(tracer=self,
                            context=self.spanContextCls(ref))

        span.set_operation_name(operation_name)

        _tags = tags or dict()
        for k, v in _tags.items():
            span.set_tag(k, v)
""", """        ref = self._reference(child_of, references)
        span = self.spanCls(tracer=self, context=self.spanContextCls(ref))
        span.set_operation_name(operation_name)
        if tags:
            for k in tags:
                span.set_tag(k, tags[k])
"""), (TR, """    def extract(self, format, carrier):
""", """    @staticmethod
    def _reference(child_of, references):
        if isinstance(child_of, MySpan):
            child_of = child_of.context
        if isinstance(child_of, SpanContext):
            return opentracing.child_of(child_of)
        if not references:
            return None
        if isinstance(references, opentracing.Reference):
            return references
        return references[0]

    def extract(self, format, carrier):
"""))
add('sc-split', 'C20 C21', (SC, """            kwargs['sofaTraceId'] = TraceId(kwargs.pop('sofaTraceId', None))
            _ids = list(kwargs.pop('sofaRpcId', '1').split('.'))
            kwargs['sofaRpcId'] = RpcId(*_ids)
""", """            trace_id = kwargs.pop('sofaTraceId', None)
            rpc_id = kwargs.pop('sofaRpcId', '1')
            kwargs.update(sofaTraceId=TraceId(trace_id), sofaRpcId=RpcId(*rpc_id.split('.')))
"""))
add('ti-parts', 'C21', (TI, """            _ip = int(ipaddress.ip_address(six.u(socket.gethostbyname(socket.gethostname()))))
            _ts = int(time.time() * 1000)
            _sq = next(self._sequence)
            _pid = os.getpid()
            self._trace_id = "{:0>8x}{:}{}{}".format(_ip, _ts, _sq, _pid)
        else:
            self._trace_id = trace
""", """            trace = self._generate()
        self._trace_id = trace

    def _generate(self):
        _ip = int(ipaddress.ip_address(six.u(socket.gethostbyname(socket.gethostname()))))
        _ts = int(time.time() * 1000)
        return "{:08x}{}{}{}".format(_ip, _ts, next(self._sequence), os.getpid())
"""))
add('co-init-connect', 'C18 C15', (CO, """        sock = socket.socket(socket.AF_INET)
        sock.setblocking(blocking)
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_KEEPALIVE, 1)
        try:
            sock.connect((pool_key.host, pool_key.port))
        except:
            pass
        self.sock = sock
""", """        self.sock = self._dial(pool_key, blocking)

    @staticmethod
    def _dial(pool_key, blocking):
        sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_KEEPALIVE, 1)
        sock.setblocking(blocking)
        host, port = pool_key
        try:
            sock.connect((host, port))
        except:
            pass
        return sock
"""))

if __name__ == '__main__':
    only = sys.argv[1:]
    for id, props, edits in R:
        if only and id not in only and not set(only) & set(props):
            continue
        d = tempfile.mkdtemp(prefix='refac')
        try:
            subprocess.run(['cp', '-a', '/repo', d + '/repo'])
            bad = None
            for p, a, b in edits:
                f = d + '/repo/' + p
                t = open(f).read()
                if t.count(a) != 1:
                    bad = '%s matches %d times' % (p, t.count(a))
                    break
                open(f, 'w').write(t.replace(a, b))
            if bad:
                print(id, 'EDIT', bad, flush=True)
                continue
            for _ in range(3):      # (the tests use fixed ports)
                r = subprocess.run('/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3', shell=True, cwd=d + '/repo', stdout=subprocess.PIPE, text=True)
                if not ('failed' in r.stdout or 'rror' in r.stdout):
                    break
                time.sleep(2)
            if 'failed' in r.stdout or 'rror' in r.stdout:
                print(id, 'TESTS', r.stdout, flush=True)
                continue
            for p in props:
                t = time.time()
                o = subprocess.run(['python3', ROOT + '/check.py', p, 'quick'], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_EVIDENCE=d + '/ev'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                print('%-18s %s %s %.0fs %s' % (id, p, 'quiet' if o.returncode == 0 else 'ALARM', time.time() - t, '' if o.returncode == 0 else o.stdout[:700]), flush=True)
        finally:
            shutil.rmtree(d)
