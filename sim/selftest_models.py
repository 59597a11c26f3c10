"""Validates the reference models against vectors published in the standards."""
from .models import streebog, cipher, ec

H = bytes.fromhex


def run():
    m1 = H('323130393837363534333231303938373635343332313039383736353433323130393837363534333231303938373635343332313039383736353433323130')[::-1]
    m2 = 'Се ветри, Стрибожи внуци, веютъ с моря стрелами на храбрыя плъкы Игоревы'.encode('cp1251')
    assert streebog.streebog(512, m1)[::-1] == H('486f64c1917879417fef082b3381a4e211c324f074654c38823a7b76f830ad00fa1fbae42b1285c0352f227524bc9ab16254288dd6863dccd5b9f54a1ad0541b')
    assert streebog.streebog(256, m1)[::-1] == H('00557be5e584fd52a449b16b0251d05d27f94ab76cbaa6da890b59d8ef1e159d')
    assert streebog.streebog(512, m2)[::-1] == H('28fbc9bada033b1460642bdcddb90c3fb3e56c497ccd0f62b8a2ad4935e85f037613966de4ee00531ae60f3b5a47f8dae06915d5f2f194996fcabf2622e6881e')
    assert streebog.streebog(256, m2)[::-1] == H('508f7e553c06501d749a66fc28c6cac0b005746d97537fa85d9e40904efed29d')
    hk = bytes(range(32))
    hm = H('0126bdb87800af214341456563780100')
    assert streebog.hmac(256, hk, hm) == H('a1aa5f7de402d7b3d323f2991c8d4534013137010a83754fd0af6d7cd4922ed9')
    assert streebog.hmac(512, hk, hm) == H('a59bab22ecae19c65fbde6e5f4e9f5d8549d31f037f9df9b905500e171923a773d5f1530f2ed7e964cb2eedc29e9ad2f3afe93b2814f79f5000ffc0366c251e6')
    assert streebog.pbkdf2(b'password', b'salt', 1, 64) == H('64770af7f748c3b1c9ac831dbcfd85c26111b30a8a657ddc3056b80ca73e040d2854fd36811f6d825cc4ab66ec0a68a490a9e5cf5156b3a2b7eecddbf9a16b47')
    assert streebog.pbkdf2(b'password', b'salt', 2, 64) == H('5a585bafdfbb6e8830d6d68aa3b43ac00d2e4aebce01c9b31c2caed56f0236d4d34b2b8fbd2c4e89d54d46f50e47d45bbac301571743119e8d3c42ba66d348de')
    key = H('8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef')
    pt = H('1122334455667700ffeeddccbbaa9988')
    ct = H('7f679d90bebc24305a468d42b9d4edcd')
    k = cipher.Kuznyechik(key)
    assert k.encrypt(pt) == ct and k.decrypt(ct) == pt
    mkey = H('ffeeddccbbaa99887766554433221100f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff')
    m = cipher.Magma(mkey)
    assert m.encrypt(H('fedcba9876543210')) == H('4ee901e5c2d8ca3d')
    assert m.decrypt(H('4ee901e5c2d8ca3d')) == H('fedcba9876543210')
    text = H('1122334455667700ffeeddccbbaa998800112233445566778899aabbcceeff0a112233445566778899aabbcceeff0a002233445566778899aabbcceeff0a0011')
    assert cipher.mac('kuznechik', key, text)[:8] == H('336f4d296059fbe3')
    mtext = H('92def06b3c130a59db54c704f8189d204a98fb2e67a8024c8912409b17b57e41')
    assert cipher.mac('magma', mkey, mtext)[:4] == H('154e7210')
    iv2 = H('1234567890abcef0a1b2c3d4e5f0011223344556677889901213141516171819')
    S = cipher.Session
    assert S('kuznechik', 'ctr', key, H('1234567890abcef0')).crypt(False, text) == H('f195d8bec10ed1dbd57b5fa240bda1b885eee733f6a13e5df33ce4b33c45dee4a5eae88be6356ed3d5e877f13564a3a5cb91fab1f20cbab6d1c6d15820bdba73')
    assert S('kuznechik', 'ofb', key, iv2).crypt(False, text)[:32] == H('81800a59b1842b24ff1f795e897abd95ed5b47a7048cfab48fb521369d9326bf')
    assert S('kuznechik', 'cbc', key, iv2).crypt(False, text)[:32] == H('689972d4a085fa4d90e52e3d6d7dcc272826e661b478eca6af1e8e448d5ea5ac')
    assert S('kuznechik', 'cfb', key, iv2).crypt(False, text)[32:48] == H('79f2a8eb5cc68d38842d264e97a238b5')
    for c in ec.CURVES.values():
        assert c.on_curve(c.g) and c.mul(c.q) is None, c.name
        assert c.mul(1) == c.g and c.mul(c.q - 1) == (c.g[0], c.p - c.g[1])
        d, kk, dig = 0x1234567 << 100, (c.q * 2) // 3, bytes(range(c.size))
        r, s = c.sign_with(d, dig, kk)
        sg = c.pack(r, s)
        assert c.verify(c.public(d), dig, sg) and c.nonce_of(d, dig, sg) == kk
    # GOST R 34.10-2012 appendix A.1
    c = ec.Curve('a1', 32,
                 0x8000000000000000000000000000000000000000000000000000000000000431, 7,
                 0x5FBFF498AA938CE739B8E022FBAFEF40563F6E6A3472FC2A514C0CE9DAE23B7E,
                 0x8000000000000000000000000000000150FE8A1892976154C59CFC193ACCF5B3, 2,
                 0x8E2A8A0E65147D4BD6316030E16D19C85C97F0A9CA267122B96ABBCEA7E8FC8, 1, {})
    d = 0x7A929ADE789BB9BE10ED359DD39A72C11B60961F49397EEE1D19CE9891EC3B28
    e = 0x2DFBC1B372D89A1188C09C52E0EEC61FCE52032AB1022E8E67ECE6672B043EE5
    kk = 0x77105C9B20BCD3122823C8CF6FCC7B956DE33814E95B7FE64FED924594DCEAB3
    r, s = c.sign_with(d, e.to_bytes(32, 'big'), kk)
    assert r == 0x41AA28D2F1AB148280CD9ED56FEDA41974053554A42767B83AD043FD39DC0493
    assert s == 0x1456C64BA4642A1653C235A98A60249BCD6D3F746B631DF928014F6C5BF9C40
    assert c.public(d) == H('7F2B49E270DB6D90D8595BEC458B50C58585BA1D4E9B788F6689DBD8E56FD80B26F1B489D6701DD185C8413A977B3CBBAF64D1C593D26627DFFB101A87FF77DA')
    return True


if __name__ == '__main__':
    run()
    print('reference models agree with the published vectors')
