"""Which module decides which property."""
from vf import g_map, g_paths, g_pics, g_ports, g_print, g_report, g_sdx, g_smdx, g_sunspec, g_tls, g_transport

GROUPS = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08'):
    GROUPS[_p] = g_transport.main
for _p in ('C09', 'C10', 'C11'):
    GROUPS[_p] = g_map.main
for _p in ('C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C25'):
    GROUPS[_p] = g_sunspec.main
GROUPS['C07'] = g_ports.main
GROUPS['C21'] = g_smdx.main
GROUPS['C22'] = g_paths.main
GROUPS['C23'] = g_sdx.main
GROUPS['C24'] = g_report.main
GROUPS['C26'] = g_tls.main
GROUPS['C27'] = g_print.main
GROUPS['C19'] = GROUPS['C20'] = g_pics.main

# module -> (technique, level note)
NOTES = {
    'vf.g_transport': (
        'TLA+ contract of a Modbus client; client model exhaustively checked by TLC; behaviours of the model and generated '
        'histories replayed on the real RTU and TCP clients, and every recorded trace judged by TLC against the contract',
        'Exhaustive for the client model up to 3 calls (4 thorough) over the whole fault alphabet; for the implementation, every '
        'recorded execution is decided by the specification, but executions are sampled (model behaviours, every truncation '
        'and corruption position of short replies, seeded histories). Trusted: TLC, the stand-ins for pyserial and socket.'),
    'vf.g_ports': (
        'TLA+ contract of devices sharing serial ports; registry model exhaustively checked by TLC; model behaviours and generated '
        'histories run on the real RTU devices, every recorded trace judged by TLC',
        'Exhaustive for the registry model up to 3 devices and 7 calls (4 devices, 8 calls thorough); histories on the implementation '
        'are sampled, each decided by the specification. Trusted: TLC, the stand-in for pyserial.'),
    'vf.g_tls': (
        'TLA+ contract of TCP connections and Modbus/TCP Security (when a client may talk to a server, what it transmits and presents); '
        'connection model exhaustively checked by TLC over every configuration and server with planted design errors; its behaviours '
        'and generated histories run on the real client against real TLS servers on the loopback interface, every recorded trace '
        'judged by TLC',
        'Exhaustive over the configurations and servers of the model and up to 3 calls (4 thorough); on the implementation the '
        'configurations are sampled, each execution decided by the specification. Trusted: TLC, OpenSSL.'),
    'vf.g_sunspec': (
        'TLA+ contract of a SunSpec device client (model chain, layout, point types, reading, assigning, writing, names, faults); '
        'scan, point and codec models exhaustively checked by TLC; their behaviours and generated devices and histories run on the '
        'real client, every recorded trace judged by TLC against the contract',
        'Exhaustive for the scan model (3 scans, 2 faults; 4 faults thorough) and the point model (4 to 6 calls, faults, device '
        'changes); on the implementation definitions, register contents, histories and fault positions are sampled, and each '
        'recorded execution is decided by the specification, which computes layout, values and registers itself. Trusted: TLC, '
        'the stand-ins for pyserial and socket.'),
    'vf.g_map': (
        'TLA+ contract of Modbus maps; block-walking model exhaustively checked by TLC; model behaviours and generated documents and '
        'histories run on the real ModbusMap, every recorded trace judged by TLC',
        'Exhaustive for the map model up to 5 operations (6 thorough); documents, contents and histories on the implementation are '
        'sampled, and each is decided by the specification (register contents computed in TLA+ from the document text).'),
    'vf.g_smdx': (
        'TLA+ contract of definition documents (what a document means, which are malformed); TLC enumerates small documents and '
        'planted reader errors; enumerated and generated documents are read by the real parser and used on a real device, every '
        'recorded trace judged by TLC',
        'Exhaustive over the small documents of the model; larger documents are sampled, and each is decided by the specification '
        'from the document tree. Trusted: TLC, the XML writer of the harness.'),
    'vf.g_paths': (
        'TLA+ contract of definition lookup along a path list (directories, zip files, package resources); model checked by TLC, its '
        'behaviours and generated histories run on the real code, every recorded trace judged by TLC',
        'Exhaustive for the small path lists of the model; histories on the implementation are sampled, each decided by the '
        'specification. Trusted: TLC, the file layout the harness writes.'),
    'vf.g_sdx': (
        'TLA+ contract of SunSpec data exchange documents (what a document means, what is written); model checked by TLC with planted '
        'errors; generated documents and histories run on the real code, every recorded trace judged by TLC',
        'Exhaustive for the model; documents on the implementation are sampled, each decided by the specification from the document '
        'tree. Trusted: TLC, the XML writer of the harness.'),
    'vf.g_pics': (
        'TLA+ contract of PICS documents and of device comparison on top of the definition, layout and value specifications; model '
        'of a writer, reader and comparison checked by TLC with planted errors; generated devices, documents and definition sets run '
        'on the real code, every recorded trace judged by TLC',
        'Exhaustive for the model (every small device and document); devices and documents on the implementation are sampled, each '
        'decided by the specification from the document trees and values. Trusted: TLC, the XML writer of the harness.'),
    'vf.g_print': (
        'TLA+ contract of printed devices, models and repeating blocks on top of the specification of scanning, layout and values; '
        'model of a printer checked by TLC over every small device image with planted errors; real devices scanned, read, assigned '
        'and printed, every printed text judged line by line by TLC',
        'Exhaustive for the model; devices and histories on the implementation are sampled, each text decided by the specification '
        'from the values the history gives. Trusted: TLC, the stand-ins for socket and serial port, the line splitter.'),
    'vf.g_report': (
        'TLA+ contract of the report on top of the specification of scanning, layout and values; model of a report writer checked by '
        'TLC with planted errors; the real command line tool run on generated device images and options, every output judged by TLC',
        'Exhaustive for the model; device images, options and failures on the implementation are sampled, each output decided line by '
        'line from the registers of the device. Trusted: TLC, the stand-ins for socket and serial port, the line splitter.'),
}
