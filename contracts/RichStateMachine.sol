// SPDX-License-Identifier: UNLICENSED
pragma solidity ^0.8.8;

import "contracts/V1/examples/MathStateMachine/MathStateMachine.sol";

/// The repository's example with more kinds of calls: several events or none in one transaction, a state that stays
/// as it is (the same participant is next again), and every way a call can be refused.
contract RichStateMachine is MathStateMachine {
    event Noted(address indexed who, string text, uint number);
    error Refused(uint code, bytes why);

    modifier theirTurn() {
        require(_tx.header.participant == getNextToWrite(), "Rich: not your turn");
        _;
    }

    function addMany(uint[] calldata xs) public theirTurn {
        for (uint i = 0; i < xs.length; i++) {
            emit Addition(state.number, xs[i], state.number + xs[i]);
            state.number += xs[i];
        }
        emit NextToPlay(getNextToWrite());
    }

    function quiet(uint x) public theirTurn {
        state.number += x;
    }

    function note(string calldata text) public theirTurn {
        emit Noted(_tx.header.participant, text, state.number);
    }

    function refuse(uint kind) public {
        state.number += 1;
        emit Addition(0, 0, 0);
        if (kind == 0) revert Refused(7, hex"1234");
        if (kind == 1) assert(false);
        if (kind == 2) revert();
        if (kind == 3) assembly { invalid() }
        if (kind == 4) assembly { pop(mload(0xffffffffffff)) } // out of gas
        revert("Rich: refused");
    }
}
