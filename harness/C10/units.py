FUNCTIONS = []
UNITS = [
 dict(name='frame_b', kind='bounded', src='tsframe.c', entry='h_frame', defs=['BOUNDED','MAXLEN=400','LEN=400','CC=13','KEY=1','DTS=0'], unwind=420,
      unwindset=['ngx_rtmp_mpegts_write_frame.0:5'],timeout=300, bound='frame<=400'),
 dict(name='frame', kind='proof', src='tsframe.c', entry='h_frame', defs=['MAXLEN=100000'],
    companion='frame_b',timeout=300,
   loops=[dict(function='ngx_rtmp_mpegts_write_frame', loop=0, nloops=1,
     inv="g_off <= len && b_->pos == pay + g_off && (first == (g_pkts == 0)) && (g_pkts == 0 ==> g_off == 0) && f_->cc == g_cc0 + g_pkts && g_pkts <= g_off",
     assigns='p_, base, body_size, in_size, stuff_size, flags, header_size, pes_size, first, rc, f_->cc, b_->pos, __CPROVER_object_whole(packet), g_off, g_pkts',
     vars={'p_':'ngx_rtmp_mpegts_write_frame::1::p','base':'ngx_rtmp_mpegts_write_frame::1::base',
      'body_size':'ngx_rtmp_mpegts_write_frame::1::body_size','in_size':'ngx_rtmp_mpegts_write_frame::1::in_size',
      'stuff_size':'ngx_rtmp_mpegts_write_frame::1::stuff_size','flags':'ngx_rtmp_mpegts_write_frame::1::flags',
      'header_size':'ngx_rtmp_mpegts_write_frame::1::header_size','pes_size':'ngx_rtmp_mpegts_write_frame::1::pes_size',
      'first':'ngx_rtmp_mpegts_write_frame::1::first','rc':'ngx_rtmp_mpegts_write_frame::1::rc',
      'packet':'ngx_rtmp_mpegts_write_frame::1::packet','f_':'ngx_rtmp_mpegts_write_frame::f','b_':'ngx_rtmp_mpegts_write_frame::b',
      'g_off':'g_off','g_pkts':'g_pkts','len':'len','pay':'pay','g_cc0':'g_cc0'})]),
]
