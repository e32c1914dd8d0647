#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <array>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>
#define CONSENSUS_STUB 1
using u256 = boost::multiprecision::number< boost::multiprecision::cpp_int_backend< 256, 256, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void > >;
enum consensus_engine_status { CONSENSUS_ACTIVE = 0, CONSENSUS_EXITED = 1 };
class ConsensusInterface {
public:
    struct SyncInfo { bool isSyncing = false; uint64_t startingBlock = 0, currentBlock = 0, highestBlock = 0; };
    virtual ~ConsensusInterface() = default;
    virtual void parseFullConfigAndCreateNode( const std::string&, const std::string& ) = 0;
    virtual void startAll() = 0;
    virtual void bootStrapAll() = 0;
    virtual void exitGracefully() = 0;
    virtual consensus_engine_status getStatus() const = 0;
    virtual u256 getPriceForBlockId( uint64_t ) const = 0;
    virtual u256 getRandomForBlockId( uint64_t ) const { return 0; }
    virtual uint64_t getEmptyBlockIntervalMs() const { return 0; }
    virtual void setEmptyBlockIntervalMs( uint64_t ) {}
    virtual SyncInfo getSyncInfo() { return {}; }
    virtual std::map< std::string, uint64_t > getConsensusDbUsage() const { return {}; }
    virtual uint64_t submitOracleRequest( const std::string&, std::string&, std::string& ) { return 0; }
    virtual uint64_t checkOracleResult( const std::string&, std::string& ) { return 0; }
};
class ConsensusExtFace {
public:
    typedef std::vector< std::vector< uint8_t > > transactions_vector;
    virtual ~ConsensusExtFace() = default;
    virtual transactions_vector pendingTransactions( size_t, u256& ) = 0;
    virtual void createBlock( const transactions_vector&, uint64_t, uint32_t, uint64_t, u256, u256, uint64_t ) = 0;
    virtual void terminateApplication() {}
};
