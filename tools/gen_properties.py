import json
MC='sunspec/core/modbus/client.py'; MM='sunspec/core/modbus/mbmap.py'; CL='sunspec/core/client.py'; DV='sunspec/core/device.py'; UT='sunspec/core/util.py'; SU='sunspec/core/suns.py'; SX='sunspec/core/smdx.py'; PI='sunspec/core/pics.py'; DA='sunspec/core/data.py'; RP='scripts/suns.py'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('C01','A register read returns exactly the registers asked for',
 "A Modbus read over RTU or TCP that returns normally returns exactly 2*count bytes: the contents, in order, of the count registers starting at the requested address, read with the requested function code. It obtains them with requests for consecutive, non-overlapping ascending ranges, none longer than the configured per-request limit, and sends nothing else. This holds however the bytes of the replies are split up on their way to the client.",
 ['inputs','schedules'],"every address, count (including zero and counts over the limit), per-request limit 1..125, function 3 or 4, register contents, slave id, transport, and every fragmentation of each reply",
 "The tests read two registers once per transport from a canned reply delivered in one piece; chunking, fragmentation, other functions and other limits are never reached.",
 [MC],[('chunking loop of ModbusClientRTU.read / ModbusClientDeviceTCP.read',MC),('reply assembly in _read',MC)],['bytes transmitted','returned bytes'])
p('C02','A register write stores exactly the given data, or reports failure',
 "A Modbus write over RTU or TCP that returns normally has stored the given bytes, in order, in exactly the registers starting at the requested address, using consecutive requests none longer than the configured limit nor than the 123 registers Modbus permits, and has changed no other register. If one of its requests is not positively acknowledged for the function, address and count it asked for, the call raises an error, sends no further request, and at most a prefix of the addressed registers has changed.",
 ['inputs','fault_sequences'],"every address, data length (including lengths of several requests), limit, slave id, transport and outcome of each individual request",
 "The tests write two registers once per transport with a canned acknowledgement; a TCP write of more than one request had never been executed.",
 [MC],[('chunking loop of ModbusClientRTU.write / ModbusClientDeviceTCP.write',MC),('acknowledgement check in _write',MC)],['bytes transmitted','device memory','outcome of the call'])
p('C03','Everything transmitted is a legal Modbus request',
 "Every byte sequence the client transmits is one complete, legal Modbus read or write request to the configured slave: on RTU with a correct CRC-16, on TCP with an MBAP header whose protocol field is zero and whose length field equals the bytes that follow, and for writes with a byte count that is twice the register count and matches the data. A write of an odd number of bytes and an access outside addresses 0..65535 are refused with a Modbus client error without transmitting an illegal request.",
 ['inputs'],"every slave id, function, address, count and data the API accepts, and the rejected ones at the borders",
 "Four request frames are pinned by the tests; no other length, address or CRC is computed, and no illegal argument is tried.",
 [MC],[('request packing in _read/_write',MC),('computeCRC',MC)],['bytes transmitted'])
p('C04','Only a reply that answers the request succeeds; failures are typed',
 "A read or write call returns normally only if every one of its requests was answered by a complete, undamaged reply for that function and, for reads, that number of registers (on RTU: from the addressed slave and with a correct CRC). A valid exception reply raises ModbusClientException naming the exception code, missing or incomplete replies raise a Modbus client error (ModbusClientTimeout for silence), and every other reply raises a Modbus client error; no other kind of exception escapes and no partial data is returned.",
 ['fault_sequences','inputs'],"every sequence of replies: exceptions with any code, silence, truncation at any byte, any corrupted byte, wrong slave, function or length, connection loss, failing sends and connects, at any request of a multi-request call",
 "No test feeds an exception reply, a damaged reply, a short reply or a timeout to either client.",
 [MC],[('CRC and response format checks',MC),('ModbusClientException raising',MC)],['replies delivered','outcome of the call'])
p('C05','TCP connections are opened, kept and released as documented',
 "A TCP request made while no connection is open opens one and has closed it again when the call ends, whatever the outcome; a request made on an explicitly opened connection uses that connection and leaves it open, unless the exchange failed without a complete reply. After close(), disconnect(), a failed connection attempt or a reconnect no earlier socket remains open, and the next request works again over a fresh connection. Connections are made to the configured address and port (502 unless given) with the configured timeout.",
 ['histories','fault_sequences'],"every history of connect, disconnect, close, read and write calls in which any connection attempt, send or receive may fail",
 "The tests use a pre-connected fake socket and never connect, disconnect, fail or reconnect.",
 [MC],[('connect/disconnect/local_connect',MC)],['sockets opened and closed','which socket carries each request'],[('socket','the open connection or none','ModbusClientDeviceTCP.socket')])
p('C06','A late reply is never taken for the answer to a later request',
 "When a request has failed because its reply did not arrive in time or could not be accepted, whatever still arrives for it is never returned as data, acknowledgement or exception of a later call: on RTU everything received before a request is sent is discarded, and on TCP the connection of the failed exchange is abandoned. A later call on the same client therefore behaves as if the failed one had never been made.",
 ['schedules','fault_sequences','histories'],"every sequence of calls with late, duplicated or surplus bytes that reach the client before the next request is sent, on explicit and implicit connections",
 "It needs two calls and a reply that arrives between them; the tests make a single call on a fresh client.",
 [MC],[('flushInput before each RTU request',MC),('disconnect after a failed TCP exchange',MC)],['order of delivered bytes, requests and results'])
p('C07','Devices on one serial port share one open port for exactly as long as needed',
 "All RTU devices on the same port with distinct slave ids use one serial port object, opened once with the baud rate and parity asked for (9600 baud and no parity unless given), eight data bits, one stop bit and no flow control; a later device with a conflicting baud rate or parity is refused and disturbs nothing. The port stays open while any of its devices is open, is closed when the last one closes, is opened anew by the next device, and closing a device again has no effect on devices opened since; a port that fails to open leaves nothing registered. A request timeout given for a device applies to its port.",
 ['histories','configurations','fault_sequences'],"every history of opening and closing devices on several ports with matching and conflicting settings and failing opens",
 "The tests open a single device on the built-in fake port and close it once.",
 [MC],[('modbus_rtu_client / modbus_rtu_client_remove registry',MC),('add_device/remove_device',MC)],['serial ports opened and closed','constructor outcome'],[('modbus_rtu_clients','port name -> shared client',MC)])
p('C08','Tracing only observes',
 "Giving a client a trace function (or enabling tracing on a SunSpec device) changes neither the requests sent nor the values returned nor the errors raised. The trace receives, in order, every request transmitted and every complete reply received as hexadecimal text, and names the address.",
 ['inputs','configurations','histories'],"every sequence of reads and writes with every reply outcome, with and without a trace function, on both transports",
 "No test ever passes a trace function, and on Python 3 most traced calls raised TypeError.",
 [MC,CL],[('trace_func calls in _read/_write',MC),('trace argument of ClientDevice',CL)],['trace text','bytes transmitted','results'])
p('C09','A Modbus map behaves as register memory',
 "Reading a Modbus map returns for every addressed register the value last written to it, or else the one it was created or loaded with, also across the boundary of adjacent blocks; writing changes exactly the addressed registers. A read that touches an address outside the map or names another function than the map's raises ModbusMapError and returns nothing, a write that does not fit in the map or has an odd number of bytes raises ModbusMapError, and neither changes any register outside the addressed range.",
 ['histories','inputs'],"every history of reads, writes and register additions over maps of several adjacent and separated blocks, at every base address and function",
 "The tests check one loaded map and one added block; writes spanning blocks, gaps, functions and histories are not exercised.",
 [MM],[('ModbusMap.read/write/regs_add',MM),('ModbusMapRegs.read/write/append',MM)],['returned bytes','errors'],[('regs','register blocks in ascending order','ModbusMap.regs')])
p('C10','Loading a Modbus map places every element as the format says',
 "Loading a map document stores each register element big-endian at its offset (the one given, or else the register after the previous element) with the length its type, its length attribute or its content implies, unfilled registers being zero; base address, function and identification come from the document. A document with overlapping or descending offsets, an unknown function or type, values that do not fit, or malformed hexadecimal text is rejected with ModbusMapError.",
 ['inputs'],"every map document over all element types, with and without offsets, lengths and content, and every way of violating the format",
 "One document, all of whose elements carry an explicit length, is loaded by the tests.",
 [MM],[('ModbusMap.from_xml/from_hex',MM)],['registers readable after loading','errors'])
p('C11','Saving and loading a Modbus map is lossless, and comparison is exact',
 "A map saved to XML and loaded again compares equal to the original and yields the same registers, base address, function, access settings and identification (all content zero if saved without data). Two maps compare equal exactly when base address, function and every block's offset, length, content and access agree, and otherwise the comparison says they differ.",
 ['inputs'],"every map reachable by loading, adding registers and writing, and every single difference between two maps",
 "The tests compare one round-tripped document; access settings, base address and most differences are not covered.",
 [MM],[('ModbusMap.to_xml/not_equal',MM),('ModbusMapRegs.not_equal',MM)],['comparison result','registers after the round trip'])
p('C12','Scanning finds exactly the models the device publishes',
 "Scanning a device tries base addresses 40000, 0 and 50000 in that order (or only the known base address), takes the first that answers with the SunS marker, and records exactly the models of the device's model chain up to the end marker, in order, with their ids, lengths and addresses, keeping and stepping over models without a usable definition and asking for no register after the end-model id. A progress callback is asked once for each model, and with a delay the scan pauses that long after every base address tried in vain and between models. A scan that cannot complete (no SunS marker, a failing access, the progress callback answering with a false value) raises SunSpecClientError, a connection the scan opened is closed when it ends in every case, and scanning again replaces the models found before.",
 ['inputs','fault_sequences','configurations'],"every device image (base address, chain of known, unknown, repeated and zero-length models), every transport, every failing access, every progress decision, repeated scans",
 "The scan is not executed by any reliable test (the model files it needs are absent), and only one mapped image exists.",
 [CL],[('ClientDevice.scan',CL)],['requests sent','models list','errors','connections'])
p('C13','A model instance is laid out as its definition says',
 "Loading a model of a given id, address and length creates the fixed block followed by exactly as many repeating blocks as the length holds, with every point of the definition except padding at block address plus offset, point lengths, order and access as defined, and every scaled point bound to the constant, the scale-factor point of its own block, or else of the fixed block. A length that cuts a block short, a repeating block without length where registers are left for it, or a scale factor that cannot be resolved raises SunSpecError (an id without definition too), a length of zero means the defined length, and the common model may have length 65.",
 ['inputs','configurations'],"every model definition (fixed and repeating blocks, point types, scale-factor references) and every instance length and address",
 "The only reliable device test checks one length error; block counts, addresses and scale factor binding depend on model files that are absent.",
 [DV],[('Model.load',DV)],['blocks, points, addresses, scale factor bindings, errors'])
p('C14','Reading a model never tears a point and never half-updates on failure',
 "Reading the points of a model asks only for registers of that model, in requests of at most 125 registers, and always fetches all registers of a point with one request, so that a point that changes on the device during the read has either its old or its new value. If any request fails, the read raises SunSpecClientError and leaves every point as it was.",
 ['schedules','fault_sequences','inputs'],"every model definition and length, every register change by the device between two requests of the read, and a failure of any request",
 "It needs models longer than one request and a device that changes or fails during the read; no reliable test reads a model at all.",
 [CL,DV],[('read_blocks in Model.load',DV),('ClientModel.read_points',CL)],['requests','point values'])
p('C15','Point values are the device registers decoded by type and scaled',
 "After a successful read every point's unscaled value is its registers decoded by its type (big-endian two's complement, unsigned, IEEE float, NUL-padded text, EUI-48, IPv6), or None if they hold the type's unimplemented value, and its value is that times ten to the power of its scale factor, if it has one that is implemented. Values never depend on earlier contents of the point.",
 ['inputs','histories'],"every register content of every point type, every scale factor value, constant or read, and every history of earlier reads and assignments",
 "The tests check two values per conversion function; unimplemented values, scaling and the path from registers to point values are not covered.",
 [CL,SU,UT,DV],[('suns_point_type_info',SU),('data_to_* functions',UT),('Point.value',DV)],['value and value_base of all points'])
p('C16','Writing a model sends exactly the assigned points, correctly encoded',
 "After points have been read, assigning values and writing the model stores in the device exactly the encodings of the values assigned (unscaled by the point's scale factor, exact for every value representable at the point's resolution) in the registers of those points, and changes no other register; points not assigned since their last successful write or read are not sent (a read replaces values assigned but not written). Reading the points back returns the assigned values, and single points can be written on their own with the same effect.",
 ['inputs','histories'],"every combination of assigned points of every type and scale factor, assigned values over the whole range, and every history of assignments, writes and reads",
 "No reliable test writes a point; string, EUI-48 and multi-point writes were broken without a test noticing.",
 [CL,DV,UT,SU],[('ClientModel.write_points / ClientPoint.write',CL),('Point.value setter',DV),('*_to_data functions',UT)],['device memory','write requests','dirty state'])
p('C17','A failed write loses no assignment',
 "If writing a model fails at any request, the call raises SunSpecClientError, every assigned point whose write was not acknowledged keeps its assigned value and remains pending, and the next write of the model sends it again; points that were acknowledged (adjacent points sent together are acknowledged together) are not sent again. Once a write succeeds, the device holds the last assigned value of every assigned point.",
 ['fault_sequences','histories'],"every history of assignments and writes over one or several non-adjacent points and blocks in which any request may be refused, unanswered or misanswered",
 "It needs a device that fails in the middle of a multi-request write followed by a retry; nothing like it is tested.",
 [CL,DV],[('dirty flags in ClientModel.write_points',CL)],['dirty state','write requests','device memory'],[('dirty','assigned but not yet taken by the device','Point.dirty')])
p('C18','Named access reaches the right model, block and point',
 "The attribute interface lists the scanned models' names in device order and exposes each model under its name, several models of one name as a list counted from 1, the fixed-block points as attributes and items of the model, and the repeating blocks as a list counted from 1 under both their name and 'repeating'. Reading or assigning an attribute or item reads or assigns exactly that point of exactly that block; scale factors and padding are not listed among the points, and models without definition appear as model_<id>. None of this changes while other devices, whose definitions of the same model ids may differ, are in use.",
 ['inputs','histories','configurations'],"every chain of models with shared names, repeated models and repeating blocks, every read and assignment through attributes and items, and every other device in use in between",
 "It needs scanned devices with repeated models and repeating blocks; no reliable test creates one.",
 [CL],[('SunSpecClientDevice.__init__',CL),('model_class_get',CL),('SunSpecClientModelBase/BlockBase',CL)],['attributes, lists and values'])
p('C19','A device written to PICS and loaded again is the same device',
 "Loading the PICS element written for a device, with all repeating blocks included, gives a device with the same models, lengths, blocks and point values, in which implemented points keep their values and unimplemented ones have none; with only the first repeating block included, all repeating blocks take its values. Base address (40000 unless given), model lengths (the defined one unless given) and point addresses follow from the document, and malformed documents raise SunSpecError.",
 ['inputs'],"every device (chains of known and unknown models, repeating blocks, all point types, any subset of points implemented) and the malformed documents",
 "The PICS tests depend on absent model files and cover one hand-written document.",
 [DV,PI],[('Device/Model/Block/Point.to_pics and from_pics',DV)],['model structure and values before and after'])
p('C20','Device comparison reports exactly the real differences',
 "Comparing two devices reports no difference exactly if they have the same models in the same order with the same definitions (ids, lengths, labels, descriptions, notes, blocks, points and all attributes of the points including symbols), the same blocks, and the same unscaled values and scale factors of all points. Comparison is symmetric, works for models without definition (by id and length), and changes nothing.",
 ['inputs'],"every pair of devices that are equal or differ in one value, scale factor, model, length, block count or definition attribute",
 "The comparison tests depend on absent model files; symbols and models without definition made every comparison fail.",
 [DV],[('not_equal of Device, Model, Block, Point and the type classes',DV)],['comparison result'])
p('C21','A model definition is loaded as its file describes it',
 "Loading an SMDX definition yields a model type with the id, length and name of the file (model_<id> if unnamed), at most one fixed and one repeating block, and every point with its offset, type, length, access, mandatory flag, scale factor, units and symbols as written, with labels, descriptions and notes from the strings section of the same model, each applied to the point and symbol it names. Definitions that are not well-formed XML, or have missing or unknown required attributes, duplicate points or duplicate blocks, are rejected with SunSpecError.",
 ['inputs'],"every definition document over all point types and attributes, strings sections, and every malformation",
 "The definition tests depend on absent model files.",
 [DV,SX],[('ModelType/BlockType/PointType/Symbol.from_smdx',DV),('model_type_get',DV)],['attributes of the loaded definition','errors'])
p('C22','Files come from the first place of the current search path that has them',
 "A path list returns the content of the named file from the first entry, in order of addition, that contains it, entries being directories or locations inside zip files, and raises NameError if none does. Model definitions and PICS files are looked up in the currently active path list before any default place, a temporarily installed path list is in force exactly within its scope (also when left by an exception, and nested), and model ids correspond one-to-one to their file names.",
 ['configurations','histories'],"every path list of directories, zip files, missing places and duplicates in any order, and every nesting of scoped path lists with lookups before, inside and after",
 "Path lists are only used with a single directory by tests, and none of the reliable tests reads a path list.",
 [UT,DV,SX],[('PathList.read',UT),('fresh_file_pathlist/model_type_get',DV),('model_id_to_filename/model_filename_to_id',SX)],['content returned','definition loaded'])
p('C23','SunSpec data records survive writing and reading',
 "A SunSpec data record built through the API, written to XML and read back has the same devices, models and points in order with the same identification, namespaces, times, indexes (a model index is omitted for the first instance), scale factors and values, and writing it again gives the same document; writing changes nothing in the record. Records with unexpected elements are rejected with SunSpecDataError, and timestamps are written in UTC.",
 ['inputs'],"every record over all optional attributes of devices, models and points, and misplaced elements",
 "One record with two points and no optional model or point attribute is written, and none is read back.",
 [DA],[('to_xml/from_xml of the record classes',DA)],['document','record read back'])
p('C24','The command line report shows every implemented point once, with its value',
 "The report of a device lists every model in device order and for every implemented point of every block, in order, one line with its label, id, repeating block number, value (bitfields in hexadecimal) and units, and no line for unimplemented points. It also completes for devices that contain models without definition, and ends with an error message and status 1 if the device cannot be scanned or read. The device asked is the one the command line names: transport, host and port or serial port and baud rate, unit, and timeout.",
 ['inputs','configurations'],"every device image and transport reachable from the command line, including unknown models and unreachable devices",
 "The script has no test.",
 [RP],[('scripts/suns.py',RP)],['standard output','exit status'])
p('C25','A fault during device access is reported as such and leaves the device usable',
 "Whatever fails underneath a scan, read or write of a SunSpec device (connection, timeout, exception reply, damaged reply, address outside the device), the call raises SunSpecClientError and no other exception. Once the fault has passed, repeating the call succeeds and gives the result it would have given without the fault.",
 ['fault_sequences','histories'],"every transport, every operation sequence and a fault of any kind at any request of it",
 "No test makes a device access fail.",
 [CL,MC],[('error translation in ClientDevice.read/write/scan',CL),('ModbusClientDeviceMapped',MC)],['exception type','results after recovery'])
p('C26','With TLS, a client talks only over TLS and only to a server it can verify',
 "With tls, a TCP client (modbus device, ClientDevice or SunSpecClientDevice) transmits nothing outside a TLS handshake and the encrypted connection, presents the given client certificate to a server that asks for one, and sends no request unless the server's certificate is valid now, is meant for servers, is signed by the given cafile (by the system's authorities only when no cafile is given) and names the address connected to; with insecure_skip_tls_verify, any server certificate is accepted. If the server cannot be verified, does not speak TLS, refuses the client, or the client's certificate or key cannot be used, the call raises ModbusClientError (SunSpecClientError from a SunSpec device) and the connection is closed; otherwise reading and writing give the same results as without TLS. Without tls, no TLS is used.",
 ['configurations','inputs','fault_sequences'],"every combination of options and system authorities, every kind of server and server certificate, TLS 1.2 and 1.3, every sequence of calls",
 "No test opens a TLS connection.",
 [MC,CL],[('ModbusClientDeviceTCP.connect',MC),('options handed on by ClientDevice and SunSpecClientDevice',CL)],['what the server receives','handshake results','exceptions','connections'])
p('C27','Printing a device shows exactly the points that have a value',
 "str() of a model of a SunSpecClientDevice is a line with its name and id, then one line 'id:  value' for every point of the fixed block that has a value, in definition order and with the value as the point's value attribute gives it (scaled, last read or assigned), then for each repeating block in order a line 'name[index]:', counted from 1, and the lines of its points; str() of a repeating block is its part of that. Points that are unimplemented or were never read have no line; zero and empty text do. str() of the device is the text of every one of its models, including every one of those that share a name and those without definition, in the order of the names and of their occurrence. Printing sends no request and changes no value.",
 ['inputs','histories'],"every device image, definition and history of reads, failed reads and assignments, before and after the first read",
 "No test prints a device; a device with several models of a name printed the address of a Python object.",
 [CL],[('__str__ of SunSpecClientModelBase, SunSpecClientBlockBase, SunSpecClientDevice',CL)],['printed text','requests'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
