"""Terminus 8x16 glyphs (SIL Open Font License 1.1, (c) 2012 Dimitar Toshkov Zhekov), Windows-1252 order without 129, 141, 143, 144, 157."""
HEX = (
    '00007e7e7e7e7e7e7e7e7e7e000000000000000010387cfe7c38100000000000aa55aa55aa55aa55aa55aa55aa55aa55008888f8888888001f0404040404000000f880e0808080001f101c1010100000'
    '00708880808870001e11111e12110000008080808080f8001f101c101010000000182424180000000000000000000000000000000010107c1010007c000000000088c8a89888880010101010101f0000'
    '00888850502020001f0404040404000010101010101010f0000000000000000000000000000000f01010101010101010000000000000001f1010101010101010101010101010101f0000000000000000'
    '10101010101010ff1010101010101010ff00000000000000000000000000000000000000ff000000000000000000000000000000000000ff00000000000000000000000000000000000000ff00000000'
    '000000000000000000000000000000ff101010101010101f101010101010101010101010101010f0101010101010101010101010101010ff000000000000000000000000000000ff1010101010101010'
    '1010101010101010101010101010101000000004081020100804003e0000000000000020100804081020007c0000000000000000007e4242424242420000000000000000027e08107e40000000000000'
    '00001824202078202020227e0000000000000000000000101000000000000000000000000000000000000000000000000000101010101010100010100000000000242424000000000000000000000000'
    '00002424247e24247e242424000000000010107c9290907c1212927c101000000000649468081010202c524c00000000000018242418304a4444443a0000000000101010000000000000000000000000'
    '0000081020202020202010080000000000002010080808080808102000000000000000000024187e1824000000000000000000000010107c101000000000000000000000000000000000101020000000'
    '000000000000007e0000000000000000000000000000000000001010000000000000040408081010202040400000000000003c4242464a526242423c0000000000000818280808080808083e00000000'
    '00003c42420204081020407e0000000000003c4242021c020242423c00000000000002060a1222427e0202020000000000007e4040407c020202423c0000000000001c2040407c424242423c00000000'
    '00007e0202040408081010100000000000003c4242423c424242423c0000000000003c424242423e02020438000000000000000000101000000010100000000000000000001010000000101020000000'
    '0000000408102040201008040000000000000000007e00007e000000000000000000004020100804081020400000000000003c4242420408080008080000000000007c829ea2a2a2a69a807e00000000'
    '00003c424242427e424242420000000000007c4242427c424242427c0000000000003c42424040404042423c000000000000784442424242424244780000000000007e40404078404040407e00000000'
    '00007e4040407840404040400000000000003c424240404e4242423c000000000000424242427e4242424242000000000000381010101010101010380000000000000e04040404040444443800000000'
    '0000424448506060504844420000000000004040404040404040407e00000000000082c6aa9292828282828200000000000042424262524a464242420000000000003c42424242424242423c00000000'
    '00007c424242427c404040400000000000003c424242424242424a3c0200000000007c424242427c504844420000000000003c4240403c020242423c000000000000fe10101010101010101000000000'
    '00004242424242424242423c0000000000004242424242242424181800000000000082828282829292aac682000000000000424224241818242442420000000000008282444428101010101000000000'
    '00007e02020408102040407e0000000000003820202020202020203800000000000040402020101008080404000000000000380808080808080808380000000000102844000000000000000000000000'
    '000000000000000000000000007e00001008000000000000000000000000000000000000003c023e4242423e0000000000004040407c42424242427c0000000000000000003c42404040423c00000000'
    '00000202023e42424242423e0000000000000000003c42427e40403c0000000000000e10107c1010101010100000000000000000003e42424242423e02023c0000004040407c42424242424200000000'
    '0000101000301010101010380000000000000404000c0404040404044444380000004040404244487048444200000000000030101010101010101038000000000000000000fc92929292929200000000'
    '00000000007c4242424242420000000000000000003c42424242423c0000000000000000007c42424242427c4040400000000000003e42424242423e0202020000000000005e60404040404000000000'
    '00000000003e40403c02027c0000000000001010107c10101010100e0000000000000000004242424242423e000000000000000000424242242418180000000000000000008282929292927c00000000'
    '0000000000424224182442420000000000000000004242424242423e02023c0000000000007e04081020407e0000000000000c10101020101010100c0000000000001010101010101010101000000000'
    '000030080808040808080830000000000062928c0000000000000000000000000000000010284482828282fe000000000000001c2240f840f840221c0000000000000000000000000000080810000000'
    '00000c1210107c1010101010109060000000000000000000000024244800000000000000000000000000929200000000000010107c1010101010101000000000000010107c101010107c101000000000'
    '18240000000000000000000000000000000048a8501020204054aa94000000002418003c4240403c0202423c000000000000000000040810201008040000000000007e9090909c909090907e00000000'
    '2418007e020408102040407e0000000000081010000000000000000000000000000808100000000000000000000000000012242400000000000000000000000000121224000000000000000000000000'
    '000000000000183c3c18000000000000000000000000007e000000000000000000000000000000fe0000000000000000324c00000000000000000000000000000000fb55555100000000000000000000'
    '00002418003e40403c02027c000000000000000000201008040810200000000000000000007c92929e90907c0000000000002418007e04081020407e0000000044440082824444281010101000000000'
    '000000000000000000000000000000000000101000101010101010100000000000000010107c92909090927c1010000000001824202078202020227e0000000000000000443844444438440000000000'
    '000082824428107c107c1010000000000000101010100000101010100000000000384440304844442418044438000000242400000000000000000000000000000000007e8199a5a1a599817e00000000'
    '0038043c443c007c00000000000000000000000000122448904824120000000000000000007e02020200000000000000000000000000003c00000000000000000000007e81b9a5b9a9a5817e00000000'
    '3c00000000000000000000000000000000182424180000000000000000000000000000000010107c1010007c0000000000182408103c0000000000000000000000380418043800000000000000000000'
    '0810000000000000000000000000000000000000004242424242467a4040400000007e929292927212121212000000000000000000000010100000000000000000000000000000000000000010102000'
    '00103010101000000000000000000000003844444438007c000000000000000000000000009048241224489000000000002060202224081022468a1e020200000020602022240810204c9204081e0000'
    '00e0106012e4081022468a1e0202000000001010001010204242423c000000001008003c4242427e42424242000000000810003c4242427e42424242000000001824003c4242427e4242424200000000'
    '324c003c4242427e42424242000000002424003c4242427e42424242000000001824183c4242427e424242420000000000007e909090fc909090909e0000000000003c42424040404042423c10102000'
    '1008007e404040784040407e000000000810007e404040784040407e000000001824007e404040784040407e000000002424007e404040784040407e0000000020100038101010101010103800000000'
    '081000381010101010101038000000001824003810101010101010380000000044440038101010101010103800000000000078444242f2424242447800000000324c00424262524a4642424200000000'
    '1008003c424242424242423c000000000810003c424242424242423c000000001824003c424242424242423c00000000324c003c424242424242423c000000002424003c424242424242423c00000000'
    '0000000000422418182442000000000000003c4342464a526242c23c0000000010084242424242424242423c0000000008104242424242424242423c0000000018240042424242424242423c00000000'
    '24240042424242424242423c0000000008108282444428101010101000000000000040407c424242427c4040000000000000384444487c424242625c0000000000001008003c023e4242423e00000000'
    '00000810003c023e4242423e0000000000001824003c023e4242423e000000000000324c003c023e4242423e0000000000002424003c023e4242423e0000000000001824183c023e4242423e00000000'
    '00000000006c12729e90906c0000000000000000003c42404040423c1010200000001008003c42427e40403c0000000000000810003c42427e40403c0000000000001824003c42427e40403c00000000'
    '00002424003c42427e40403c0000000000002010003010101010103800000000000008100030101010101038000000000000304800301010101010380000000000004848003010101010103800000000'
    '00002810283c42424242423c000000000000324c007c4242424242420000000000001008003c42424242423c0000000000000810003c42424242423c0000000000001824003c42424242423c00000000'
    '0000324c003c42424242423c0000000000002424003c42424242423c00000000000000001010007c001010000000000000000000023c464a526242bc0000000000001008004242424242423e00000000'
    '00000810004242424242423e0000000000001824004242424242423e0000000000002424004242424242423e0000000000000810004242424242423e02023c0000004040407c42424242427c40404000'
    '00002424004242424242423e02023c00'
)
