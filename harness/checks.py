"""What decides each property: exhaustive models and trace conformance."""
ASSUMPTIONS = ["TLC and the TLA+ standard and community modules evaluate specifications correctly",
               "the drivers record what the public interface returned without interpreting it"]

WORD = [{'tla': 'MC_Word.tla', 'cfg': 'MC_Word_2.cfg', 'what': 'word arithmetic equals integer arithmetic, all 4-bit words', 'min': 200},
        {'tla': 'MC_Word.tla', 'cfg': 'MC_Word_4.cfg', 'what': 'word arithmetic equals integer arithmetic, all 8-bit words', 'min': 60000}]
ENC = [{'tla': 'MC_Enc.tla', 'cfg': 'MC_Enc.cfg', 'what': 'encoding table: no ties, most specific first', 'min': 900000}]
EXEC = [{'driver': 'd_exec', 'spec': 'Trace_Cpu'}]

CHECKS = {}
for c in ('C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11'):
    CHECKS[c] = {'table': True, 'models': WORD, 'traces': EXEC}
CHECKS['C12'] = {'table': True, 'models': WORD, 'traces': EXEC, 'clauses': ['frame', 'exception', 'decode']}
DECODE = [{'driver': 'd_decode', 'spec': 'Trace_Cpu'}]
for c in ('C01', 'C02', 'C23', 'C24'):
    CHECKS[c] = {'table': True, 'models': ENC if c < 'C10' else WORD, 'traces': DECODE}
CHECKS['C13'] = {'table': True, 'models': WORD, 'traces': [{'driver': 'd_reuse', 'spec': 'Trace_Reuse'}]}
DEVICE = [{'tla': 'MC_Device.tla', 'cfg': 'MC_Device.cfg', 'tier': 'quick', 'what': 'mock CPU: all histories of 3 register or 2 memory writes keep banking, widths, containment and byte composition', 'min': 1000},
          {'tla': 'MC_Device.tla', 'cfg': 'MC_Device_T.cfg', 'tier': 'thorough', 'what': 'mock CPU: all histories of 5 register or 4 memory writes', 'min': 100000}]
for c in ('C19', 'C20'):
    CHECKS[c] = {'models': DEVICE, 'traces': [{'driver': 'd_device', 'spec': 'Trace_Device'}]}
CHECKS['C21'] = {'models': DEVICE, 'traces': [{'driver': 'd_facade', 'spec': 'Trace_Facade'}]}
EXECM = [{'tla': 'MC_Exec.tla', 'cfg': 'MC_Exec.cfg', 'tier': 'quick', 'what': 'every 29th 16-bit word and matching 32-bit words in 4 states: declared effects only, pop undoes push', 'min': 10000},
         {'tla': 'MC_Exec.tla', 'cfg': 'MC_Exec_T.cfg', 'tier': 'thorough', 'what': 'every first halfword in 16 states: declared effects only, pop undoes push', 'min': 1000000}]
for c in ('C09', 'C10', 'C12', 'C23', 'C24'):
    CHECKS[c]['models'] = EXECM
CHECKS['C21']['models'] = [{'tla': 'MC_Facade.tla', 'cfg': 'MC_Facade.cfg', 'tier': 'quick', 'what': 'one view of the registers, all histories of 2 writes, all pairs of names', 'min': 3000},
                           {'tla': 'MC_Facade.tla', 'cfg': 'MC_Facade_T.cfg', 'tier': 'thorough', 'what': 'one view of the registers, all histories of 3 writes, all pairs of names', 'min': 200000}]
PROG = [{'tla': 'MC_Prog.tla', 'cfg': 'MC_Prog.cfg', 'tier': 'quick', 'what': 'nine families of programs compute their closed form', 'min': 12000},
        {'tla': 'MC_Prog.tla', 'cfg': 'MC_Prog_T.cfg', 'tier': 'thorough', 'what': 'nine families of programs compute their closed form, three places of the stack', 'min': 40000}]
CHECKS['C25'] = {'table': True, 'models': PROG, 'traces': [{'driver': 'd_prog', 'spec': 'Trace_Prog'}]}
STREAM = [{'tla': 'MC_Stream.tla', 'cfg': 'MC_Stream.cfg', 'tier': 'quick', 'what': 'streams over all sequences of up to 4 halfwords of 7 kinds tile a prefix and can be continued anywhere', 'min': 5000},
          {'tla': 'MC_Stream.tla', 'cfg': 'MC_Stream_T.cfg', 'tier': 'thorough', 'what': 'streams over all sequences of up to 6 halfwords of 7 kinds tile a prefix and can be continued anywhere', 'min': 800000}]
CHECKS['C22'] = {'table': True, 'models': STREAM, 'traces': [{'driver': 'd_stream', 'spec': 'Trace_Stream'}]}
BITS = [{'tla': 'MC_Bits.tla', 'cfg': 'MC_Bits.cfg', 'tier': 'quick', 'what': 'bit-sequence operators equal integer arithmetic, all operands up to 5 bits', 'min': 4000},
        {'tla': 'MC_Bits.tla', 'cfg': 'MC_Bits_T.cfg', 'tier': 'thorough', 'what': 'bit-sequence operators equal integer arithmetic, all operands up to 8 bits', 'min': 250000}]
for c in ('C14', 'C15', 'C16', 'C17', 'C18'):
    CHECKS[c] = {'models': BITS, 'traces': [{'driver': 'd_bits', 'spec': 'Trace_Bits'}]}
CHECKS['C03'] = {'models': [{'tla': 'MC_Selection.tla', 'cfg': 'MC_Selection.cfg', 'tier': 'quick', 'what': 'tree lookup = ordered selection, all lists of 3 patterns of 3 bits', 'min': 20000},
                            {'tla': 'MC_Selection.tla', 'cfg': 'MC_Selection_T.cfg', 'tier': 'thorough', 'what': 'tree lookup = ordered selection, all lists of 4 patterns of 3 bits', 'min': 500000},
                            {'tla': 'MC_Selection.tla', 'cfg': 'MC_Selection_T4.cfg', 'tier': 'thorough', 'what': 'tree lookup = ordered selection, all lists of 3 patterns of 4 bits', 'min': 500000}],
                 'traces': [{'driver': 'd_decoder', 'spec': 'Trace_Decoder'}]}
CHECKS['C04'] = {'models': [{'tla': 'MC_Pattern.tla', 'cfg': 'MC_Pattern.cfg', 'tier': 'quick', 'what': 'reading a written pattern gives it back; texts of up to 5 characters; 4-bit patterns', 'min': 60000},
                            {'tla': 'MC_Pattern.tla', 'cfg': 'MC_Pattern_T.cfg', 'tier': 'thorough', 'what': 'reading a written pattern gives it back; texts of up to 7 characters; 5-bit patterns', 'min': 5000000}],
                 'traces': [{'driver': 'd_decoder', 'spec': 'Trace_Decoder'}]}
CHECKS['C28'] = {'models': [{'tla': 'MC_Util.tla', 'cfg': 'MC_Util.cfg', 'tier': 'quick', 'what': 'conversions inverse, fields of up to 5 bits, floats of 7 bits', 'min': 3000},
                            {'tla': 'MC_Util.tla', 'cfg': 'MC_Util_T.cfg', 'tier': 'thorough', 'what': 'conversions inverse, fields of up to 6 bits, floats of 10 bits', 'min': 9000}],
                 'traces': [{'driver': 'd_util', 'spec': 'Trace_Util'}]}
CONSOLE = [{'tla': 'MC_Console.tla', 'cfg': 'MC_Console.cfg', 'tier': 'quick', 'what': 'console: all sessions of 2 lines of 37; every pair of lines composes', 'min': 1000},
           {'tla': 'MC_Console.tla', 'cfg': 'MC_Console_T.cfg', 'tier': 'thorough', 'what': 'console: all sessions of 3 lines of 37; every pair of lines composes after any line', 'min': 10000}]
for c in ('C26', 'C27'):
    CHECKS[c] = {'table': True, 'models': CONSOLE, 'traces': [{'driver': 'd_console', 'spec': 'Trace_Console'}]}
